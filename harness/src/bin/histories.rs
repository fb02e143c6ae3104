//! Operations do not disturb one another: traversals in progress at the same time, traversals and
//! transforms inside another's closures, and sequences of operations on one tree.
use mc::tree_iterators_rs::prelude::*;
use mc::*;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

// ---- iterators in progress at the same time ---------------------------------------------------
type Step<'a> = Box<dyn FnMut() -> Option<Vec<u32>> + 'a>;
enum Mk<N> {
    Own(fn(N) -> Step<'static>),
    Mut(for<'a> fn(&'a mut N) -> Step<'a>),
    Ref(for<'a> fn(&'a N) -> Step<'a>),
}
type Kinds<N> = Vec<(String, Mk<N>)>;
fn start<'a, N: Build>(mk: &Mk<N>, t: &'a mut N, m: &M) -> Step<'a> {
    match mk {
        Mk::Own(f) => f(N::build(m)),
        Mk::Mut(f) => f(t),
        Mk::Ref(f) => f(t),
    }
}
fn ids<T: Obs>(a: &[T]) -> Vec<u32> {
    a.iter().map(|v| v.id()).collect()
}
macro_rules! kind {
    (owned, $($r:tt)*) => { kind!(@ Own, $($r)*) };
    (muts, $($r:tt)*) => { kind!(@ Mut, $($r)*) };
    (refs, $($r:tt)*) => { kind!(@ Ref, $($r)*) };
    (@ $V:ident, $label:expr, $o:expr, $N:ty, ($t:ident) => $it:expr, $out:ident) => {
        kind!(@one $V, $label.to_string(), $N, ($t, it = $it), $out, it.next().map(|v| vec![Obs::id(&v)]));
        kind!(@one $V, format!("{}.leaves()", $label), $N, ($t, it = ($it).leaves()), $out, it.next().map(|v| vec![Obs::id(&v)]));
        kind!(@one $V, format!("{}.attach_ancestors()", $label), $N, ($t, it = ($it).attach_ancestors()), $out, it.next().map(ids));
        kind!(@one $V, format!("{}.attach_ancestors().leaves()", $label), $N, ($t, it = ($it).attach_ancestors().leaves()), $out, it.next().map(ids));
        kind!(@one $V, format!("{}.attach_context()", $label), $N, ($t, it = ($it).attach_context()), $out, it.next().map(|x| {
            let mut r: Vec<u32> = x.path().iter().map(|p| *p as u32).collect();
            r.push(u32::MAX);
            r.extend(ids(x.ancestors()));
            r
        }));
    };
    (@one $V:ident, $label:expr, $N:ty, ($t:ident, $it:ident = $e:expr), $out:ident, $next:expr) => {
        $out.push(($label, Mk::<$N>::$V(|$t| {
            let mut $it = $e;
            Box::new(move || $next)
        })));
    };
}
macro_rules! pipe_kinds {
    ($N:ty, $nm:literal, $out:ident) => {
        kind!(@one Own, concat!($nm, ".into_pipeline() prune").to_string(), $N, (t, it = t.into_pipeline().prune(|v| Obs::id(v) % 3 == 1)), $out, it.next().map(|v| vec![v.id(), it.current_depth() as u32]));
        kind!(@one Mut, concat!($nm, ".into_pipeline_mut() map_tree prune_path").to_string(), $N, (t, it = t.into_pipeline_mut().map_tree(|v| Obs::id(&v)).prune_path(|p, v| p.len() == 2 && *v % 2 == 1)), $out, it.next().map(|v| vec![v, it.current_depth() as u32]));
        kind!(@one Ref, concat!($nm, ".into_pipeline_ref() prune_depth map_path").to_string(), $N, (t, it = t.into_pipeline_ref().prune_depth(2).map_path(|p, v| { let mut r = vec![Obs::id(&v)]; r.extend(p.iter().map(|p| *p as u32)); r })), $out, it.next());
        kind!(@one Ref, concat!($nm, ".into_pipeline_ref() prune prune_path").to_string(), $N, (t, it = t.into_pipeline_ref().prune(|v| Obs::id(v) % 3 == 2).prune_path(|p, _| p == [0, 1])), $out, it.next().map(|v| vec![v.id(), it.current_depth() as u32]));
    };
}
fn solo<N: Build>(mk: &Mk<N>, m: &M) -> Vec<Option<Vec<u32>>> {
    let mut t = N::build(m);
    let mut s = start(mk, &mut t, m);
    let mut out = vec![];
    loop {
        out.push(s());
        if out.last().unwrap().is_none() || out.len() > m.size() + 1 {
            return out;
        }
    }
}
/// every order in which iterators with these numbers of steps can be advanced
fn schedules(left: &mut [usize], at: &mut Vec<u8>, f: &mut dyn FnMut(&[u8])) {
    if left.iter().all(|l| *l == 0) {
        return f(at);
    }
    for i in 0..left.len() {
        if left[i] > 0 {
            left[i] -= 1;
            at.push(i as u8);
            schedules(left, at, f);
            at.pop();
            left[i] += 1;
        }
    }
}
fn play(steps: &mut [Step], want: &[&Vec<Option<Vec<u32>>>], sched: &[u8], st: &mut Stats) -> Result<(), String> {
    let mut at = vec![0; steps.len()];
    for &i in sched {
        let i = i as usize;
        let got = steps[i]();
        st.step();
        if got != want[i][at[i]] {
            return Err(format!("call {} of iterator {i} gave {got:?}, on its own it gives {:?}", at[i], want[i][at[i]]));
        }
        st.see(got.map_or(1, |g| g.len() as u64 + 2));
        at[i] += 1;
    }
    Ok(())
}
fn pairs<N: Build>(c: &mut Ctx, kinds: &Kinds<N>, a: &M, b: &M) {
    let (sa, sb): (Vec<_>, Vec<_>) = kinds.iter().map(|k| (solo(&k.1, a), solo(&k.1, b))).unzip();
    for (i, (li, ki)) in kinds.iter().enumerate() {
        for (j, (lj, kj)) in kinds.iter().enumerate() {
            let want = [&sa[i], &sb[j]];
            schedules(&mut [sa[i].len(), sb[j].len()], &mut vec![], &mut |s| {
                c.case(&|| format!("{li} on {a} and {lj} on another tree {b}, in the order {s:?}"), &mut |st| {
                    let (mut x, mut y) = (N::build(a), N::build(b));
                    let r = play(&mut [start(ki, &mut x, a), start(kj, &mut y, b)], &want, s, st);
                    r
                });
                if let (Mk::Ref(f), Mk::Ref(g), true) = (ki, kj, a == b) {
                    c.case(&|| format!("{li} and {lj} on the same tree {a}, in the order {s:?}"), &mut |st| {
                        let x = N::build(a);
                        let r = play(&mut [f(&x), g(&x)], &want, s, st);
                        r
                    });
                }
            });
        }
    }
}
/// one of them abandoned part of the way, and then another
fn abandoned<N: Build>(c: &mut Ctx, kinds: &Kinds<N>, a: &M, b: &M) {
    let (sa, sb): (Vec<_>, Vec<_>) = kinds.iter().map(|k| (solo(&k.1, a), solo(&k.1, b))).unzip();
    for (i, (li, ki)) in kinds.iter().enumerate() {
        for (j, (lj, kj)) in kinds.iter().enumerate() {
            for k in 0..sa[i].len() {
                c.case(&|| format!("{li} on {a} dropped after {k} calls, then {lj} on another tree {b}"), &mut |st| {
                    let (mut x, mut y) = (N::build(a), N::build(b));
                    play(&mut [start(ki, &mut x, a)], &[&sa[i]], &vec![0; k], st)?;
                    let r = play(&mut [start(kj, &mut y, b)], &[&sb[j]], &vec![0; sb[j].len()], st);
                    r
                });
            }
            if let (Mk::Ref(f), Mk::Ref(g), true) = (ki, kj, a == b) {
                for k in 0..sa[i].len() {
                    c.case(&|| format!("{li} dropped after {k} calls, then {lj}, on the same tree {a}"), &mut |st| {
                        let x = N::build(a);
                        play(&mut [f(&x)], &[&sa[i]], &vec![0; k], st)?;
                        let r = play(&mut [g(&x)], &[&sb[j]], &vec![0; sb[j].len()], st);
                        r
                    });
                }
            }
        }
    }
}
fn triples<N: Build>(c: &mut Ctx, kinds: &Kinds<N>, m: &M) {
    let refs: Vec<_> = kinds.iter().filter_map(|k| if let Mk::Ref(f) = k.1 { Some((&k.0, f, solo(&k.1, m))) } else { None }).collect();
    for (li, fi, wi) in &refs {
        for (lj, fj, wj) in &refs {
            for (lk, fk, wk) in &refs {
                schedules(&mut [wi.len(), wj.len(), wk.len()], &mut vec![], &mut |s| {
                    c.case(&|| format!("{li}, {lj} and {lk} on the same tree {m}, in the order {s:?}"), &mut |st| {
                        let x = N::build(m);
                        let r = play(&mut [fi(&x), fj(&x), fk(&x)], &[wi, wj, wk], s, st);
                        r
                    });
                });
            }
        }
    }
}

// ---- operations inside another's closures -----------------------------------------------------
enum Out<N> {
    Own(fn(N, &mut dyn FnMut()) -> Vec<M>),
    Mut(for<'a> fn(&'a mut N, &mut dyn FnMut()) -> Vec<M>),
    Ref(for<'a> fn(&'a N, &mut dyn FnMut()) -> Vec<M>),
}
type Inner<N> = (String, fn(&N) -> Vec<M>);
macro_rules! outer {
    ($V:ident, $N:ty, $nm:literal, $K:ty, $fold:path, $out:ident, $inn:ident, $map:ident, $map_path:ident, $prune:ident, $prune_path:ident, $fld:ident, $fold_path:ident, $pipe:ident) => {
        outer!(@ $V, $N, $nm, $out, $inn, $map, (t, h) => vec![t.$map(|v| { h(); Obs::id(&v) }).model()]);
        outer!(@ $V, $N, $nm, $out, $inn, $map_path, (t, h) => vec![t.$map_path(|p: &[usize], v| { h(); Obs::id(&v) * 100 + p.len() as u32 }).model()]);
        outer!(@ $V, $N, $nm, $out, $inn, $prune, (t, h) => t.$prune(|v| { h(); Obs::id(v) % 3 == 2 }).map(|t| t.model()).into_iter().collect());
        outer!(@ $V, $N, $nm, $out, $inn, $prune_path, (t, h) => t.$prune_path(|p: &[usize], v| { h(); p.len() == 2 && Obs::id(v) % 2 == 0 }).map(|t| t.model()).into_iter().collect());
        outer!(@ $V, $N, $nm, $out, $inn, $fld, (t, h) => vec![t.$fld(|k: $K, v| { h(); $fold(k, Obs::id(&v), 0) })]);
        outer!(@ $V, $N, $nm, $out, $inn, $fold_path, (t, h) => vec![t.$fold_path(|k: $K, p: &[usize], v| { h(); $fold(k, Obs::id(&v), p.len() as u32) })]);
        outer!(@ $V, $N, $nm, $out, $inn, $pipe, (t, h) => {
            let h = std::cell::RefCell::new(h);
            t.$pipe().map_path(|p, v| { h.borrow_mut()(); Obs::id(&v) * 10 + p.len() as u32 }).prune(|v| { h.borrow_mut()(); *v % 3 == 2 }).prune_depth(3).prune_path(|p, _| { h.borrow_mut()(); p == [1, 0] }).map_tree(|v| { h.borrow_mut()(); v }).collect_tree().map(|t| t.model()).into_iter().collect()
        });
    };
    (@ $V:ident, $N:ty, $nm:expr, $out:ident, $inn:ident, $m:ident, ($t:ident, $h:ident) => $e:expr) => {
        $out.push((format!("{}.{}", $nm, stringify!($m)), Out::<$N>::$V(|$t, $h| $e)));
        outer!(@inner $V, $N, $nm, $inn, $m, ($t, $h) => $e);
    };
    (@inner Ref, $N:ty, $nm:expr, $inn:ident, $m:ident, ($t:ident, $h:ident) => $e:expr) => {
        $inn.push((format!("{}.{}", $nm, stringify!($m)), |$t| { let mut n = || (); let $h: &mut dyn FnMut() = &mut n; $e }));
    };
    (@inner $($r:tt)*) => {};
}
fn nested<N: Build>(c: &mut Ctx, outs: &[(String, Out<N>)], inns: &[Inner<N>], kinds: &Kinds<N>, m: &M) {
    let run = |o: &Out<N>, hook: &mut dyn FnMut(&N)| -> Vec<M> {
        let (shared, mut t) = (N::build(m), N::build(m));
        match o {
            Out::Own(f) => f(N::build(m), &mut || hook(&shared)),
            Out::Mut(f) => f(&mut t, &mut || hook(&shared)),
            Out::Ref(f) => f(&shared, &mut || hook(&shared)),
        }
    };
    for (lo, o) in outs {
        let mut calls = 0;
        let want = run(o, &mut |_| calls += 1);
        let same = |st: &mut Stats, got: &[M]| {
            st.step();
            if *got != want[..] {
                return Err(format!("the outer operation gave {}, on its own it gives {}", forest_str(got), forest_str(&want)));
            }
            Ok(())
        };
        for (li, f) in inns {
            let inner = f(&N::build(m));
            // in every call, and in every single call
            for at in 0..=calls {
                c.case(&|| format!("{lo} on {m} with {li} inside {}", if at == 0 { "every call of its closure".into() } else { format!("call {at}") }), &mut |st| {
                    let (mut n, mut bad) = (0, None);
                    let got = run(o, &mut |t| {
                        n += 1;
                        if at == 0 || at == n {
                            st.step();
                            let g = f(t);
                            if g != inner {
                                bad = Some(format!("the inner operation gave {} in call {n}, on its own it gives {}", forest_str(&g), forest_str(&inner)));
                            }
                        }
                    });
                    bad.map_or(Ok(()), Err)?;
                    same(st, &got)
                });
            }
        }
        // a traversal that goes on by one element in every call, beginning in each of the calls
        for (li, k) in kinds {
            let Mk::Ref(f) = k else { continue };
            let alone = solo(k, m);
            for at in 1..=calls {
                c.case(&|| format!("{lo} on {m} with one step of {li} in every call of its closure from call {at}"), &mut |st| {
                    let (walked, mut t) = (N::build(m), N::build(m));
                    let (mut n, mut k, mut bad, mut step) = (0, 0, None, None);
                    let got = {
                        let mut h = || {
                            n += 1;
                            if n >= at {
                                let s = step.get_or_insert_with(|| f(&walked));
                                st.step();
                                let g = s();
                                if g != *alone.get(k).unwrap_or(&None) {
                                    bad = Some(format!("step {k} of the inner traversal gave {g:?}, on its own it gives {:?}", alone.get(k)));
                                }
                                k += 1;
                            }
                        };
                        match o {
                            Out::Own(f) => f(N::build(m), &mut h),
                            Out::Mut(f) => f(&mut t, &mut h),
                            Out::Ref(f) => f(&walked, &mut h),
                        }
                    };
                    drop(step);
                    bad.map_or(Ok(()), Err)?;
                    same(st, &got)
                });
            }
        }
    }
}

// ---- sequences of operations on one tree -------------------------------------------------------
#[derive(Clone, Copy, Debug, PartialEq)]
enum Variant {
    Plain,
    Leaves,
    Ancestors,
    Context,
}
#[derive(Clone, Debug, PartialEq)]
enum Op {
    /// walk so many elements of a mutable traversal, modifying each, and abandon it
    Walk(Order, Variant, usize),
    /// in a mutable traversal with context, take the first child of the node of this index away
    Cut(Order, usize),
    /// at_path_mut of a node, then: modify it, remove it, add a leaf to it in a slot
    Set(u32),
    Remove(u32),
    Add(u32, usize),
    /// owned at_path
    At(u32),
    Map,
    MapPath,
    MapMut,
    MapRef,
    MapEach,
    Prune(u32),
    PrunePath(u32),
    PruneMut(u32),
    PrunePathRef(u32),
    Depth(usize),
    DepthMut(usize),
    Pipe(u32, usize),
    Trees(u32),
    Fold,
    Clone,
    /// closures that panic in their n-th call
    BoomMap(usize),
    BoomPrune(usize),
    BoomFold(usize),
}
use Op::*;

fn walk_ids(m: &M, o: Order, v: Variant) -> Vec<u32> {
    let leaf = m.leaf_ids();
    match v {
        Variant::Leaves => m.order(if o == Order::Bfs { o } else { Order::Pre }).into_iter().filter(|i| leaf.contains(i)).collect(),
        _ => m.order(o),
    }
}
fn ops(m: &M, full: bool) -> Vec<Op> {
    let n = m.size();
    let pre = m.order(Order::Pre);
    let mut out = vec![Map, MapRef, Fold, Clone];
    if full {
        out.extend([MapPath, MapMut, MapEach]);
    }
    let orders: &[Order] = if m.binary { &[Order::Bfs, Order::Pre, Order::In, Order::Post] } else { &[Order::Bfs, Order::Pre, Order::Post] };
    for &o in orders {
        for v in [Variant::Plain, Variant::Leaves, Variant::Ancestors, Variant::Context] {
            let len = walk_ids(m, o, v).len();
            if full {
                out.extend((1..=len).map(|k| Walk(o, v, k)));
            } else if v == Variant::Plain || v == Variant::Context && o != Order::Post {
                out.push(Walk(o, v, len.div_ceil(2)));
            }
        }
        if matches!(o, Order::Bfs | Order::Pre) {
            for (i, id) in m.order(o).into_iter().enumerate() {
                if !m.find(id).unwrap().kids.is_empty() && (full || i == 0) {
                    out.push(Cut(o, i));
                }
            }
        }
    }
    for (i, &id) in pre.iter().enumerate() {
        let node = m.find(id).unwrap();
        if m.binary {
            out.extend((0..2).filter(|s| node.kids.iter().all(|k| k.slot != *s)).filter(|s| full || *s == 0).map(|s| Add(id, s)));
        } else {
            out.push(Add(id, 0));
            if full && !node.kids.is_empty() {
                out.push(Add(id, node.kids.len()));
            }
        }
        if i > 0 {
            out.extend([Remove(id), Prune(id), PruneMut(id)]);
            if full {
                out.extend([At(id), PrunePath(id), PrunePathRef(id), Pipe(id, m.height()), Trees(id)]);
            }
        }
        if full || i == n / 2 {
            out.push(Set(id));
        }
        if full {
            out.extend([BoomMap(i), BoomPrune(i), BoomFold(i)]);
        }
    }
    for d in 0..m.height() {
        out.push(Depth(d));
        if full {
            out.extend([DepthMut(d), Pipe(u32::MAX, d)]);
        }
    }
    out
}
fn touch_all(m: &mut M) {
    m.touched += 1;
    m.kids.iter_mut().for_each(touch_all);
}
fn cut_depth(m: &mut M, d: usize) {
    if d == 0 {
        m.kids.clear();
    } else {
        m.kids.iter_mut().for_each(|k| cut_depth(k, d - 1));
    }
}
fn remove(m: &mut M, id: u32) {
    m.kids.retain(|k| k.id != id);
    m.kids.iter_mut().for_each(|k| remove(k, id));
}
fn apply(m: &mut M, op: &Op, fresh: u32) {
    let touch = |m: &mut M, ids: &[u32]| ids.iter().for_each(|i| m.find_mut(*i).unwrap().touched += 1);
    match *op {
        Walk(o, v, k) => {
            let w = walk_ids(m, o, v);
            touch(m, &w[..k]);
        }
        Cut(o, i) => {
            let id = m.order(o)[i];
            let kid = m.find(id).unwrap().kids[0].clone();
            let gone = kid.order(Order::Pre);
            let seen: Vec<u32> = m.order(o).into_iter().filter(|i| !gone.contains(i)).collect();
            touch(m, &seen);
            // the children of a binary node are an array of references: the tree itself keeps the child
            if !m.binary {
                remove(m, kid.id);
            }
        }
        Set(id) => touch(m, &[id]),
        Remove(id) | Prune(id) | PruneMut(id) | PrunePath(id) | PrunePathRef(id) => remove(m, id),
        Trees(id) => {
            remove(m, id);
            touch_all(m);
        }
        Add(id, s) => {
            let b = m.binary;
            let n = m.find_mut(id).unwrap();
            let leaf = M { slot: s, binary: b, ..M::leaf(fresh) };
            n.kids.insert(if b && s == 1 { n.kids.len() } else if b { 0 } else { s }, leaf);
        }
        At(id) => *m = M { slot: 0, ..m.find(id).unwrap().clone() },
        Map | MapPath | MapMut | MapEach | Fold => touch_all(m),
        MapRef | Clone => {}
        Depth(d) | DepthMut(d) => cut_depth(m, d),
        Pipe(id, d) => {
            remove(m, id);
            cut_depth(m, d);
            touch_all(m);
        }
        BoomMap(k) | BoomPrune(k) => {
            let w = m.order(Order::Pre);
            touch(m, &w[..if matches!(op, BoomPrune(_)) { 0 } else { k }]);
        }
        BoomFold(k) => {
            let w = m.order(Order::Post);
            touch(m, &w[..k]);
        }
    }
    m.slots_from_position();
}
struct Boom;
fn boom(f: impl FnOnce()) -> Result<(), String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Err(e) if e.is::<Boom>() => Ok(()),
        Err(e) => resume_unwind(e),
        Ok(()) => Err("the closure was called too few times to panic".into()),
    }
}
trait Hist: Build + Sized {
    fn step(self, op: &Op, m: &M, fresh: u32) -> Result<Option<Self>, String>;
}
fn path_of(m: &M, id: u32) -> Vec<usize> {
    m.infos().into_iter().find(|i| i.id == id).unwrap().path
}
fn some<T>(what: &str, t: Option<T>) -> Result<T, String> {
    t.ok_or_else(|| format!("{what} found nothing"))
}
fn walked(got: Vec<u32>, want: &[u32], k: usize) -> Result<(), String> {
    if got != want[..k] {
        return Err(format!("the traversal yielded {got:?}, expected {:?}", &want[..k]));
    }
    Ok(())
}
macro_rules! walk {
    ($t:ident, $m:ident, $meth:ident, $o:expr, $v:expr, $k:expr) => {{
        let mut got = vec![];
        match $v {
            Variant::Plain => $t.$meth().take($k).for_each(|v| { v.touched += 1; got.push(v.id) }),
            Variant::Leaves => $t.$meth().leaves().take($k).for_each(|v| { v.touched += 1; got.push(v.id) }),
            Variant::Ancestors => {
                let mut it = $t.$meth().attach_ancestors();
                while got.len() < $k {
                    let Some(a) = it.next_mut() else { break };
                    let v = a.last_mut().unwrap();
                    v.touched += 1;
                    got.push(v.id);
                }
            }
            Variant::Context => {
                let mut it = $t.$meth().attach_context();
                while got.len() < $k {
                    let Some(a) = it.next_mut() else { break };
                    let v = a.ancestors_mut().last_mut().unwrap();
                    v.touched += 1;
                    got.push(v.id);
                }
            }
        }
        walked(got, &walk_ids($m, $o, $v), $k)?;
    }};
}
macro_rules! cut {
    ($t:ident, $meth:ident, $i:expr, $x:ident => $cut:expr) => {{
        let mut it = $t.$meth().attach_context();
        let mut n = 0;
        while let Some($x) = it.next_mut() {
            $x.ancestors_mut().last_mut().unwrap().touched += 1;
            if n == $i {
                $cut;
            }
            n += 1;
        }
    }};
}
macro_rules! hist {
    ($N:ident, $K:ty, [$($ino:tt)*], ($x:ident) => $cut:expr, ($p:ident, $slot:ident) => $take:expr, ($q:ident, $s2:ident, $leaf:ident) => $add:expr, ($kids:ident, $v:ident) => $fold:expr) => {
        impl Hist for $N<V> {
            fn step(self, op: &Op, m: &M, fresh: u32) -> Result<Option<Self>, String> {
                let mut t = self;
                let touch = |mut v: V| { v.touched += 1; v };
                Ok(Some(match *op {
                    Walk(o, v, k) => {
                        match o {
                            Order::Bfs => walk!(t, m, bfs_iter_mut, o, v, k),
                            Order::Pre => walk!(t, m, dfs_preorder_iter_mut, o, v, k),
                            Order::Post => walk!(t, m, dfs_postorder_iter_mut, o, v, k),
                            Order::In => hist!(@in t, m, o, v, k, $($ino)*),
                        }
                        t
                    }
                    Cut(o, i) => {
                        match o {
                            Order::Bfs => cut!(t, bfs_iter_mut, i, $x => $cut),
                            _ => cut!(t, dfs_preorder_iter_mut, i, $x => $cut),
                        }
                        t
                    }
                    Set(id) => {
                        some("at_path_mut", t.at_path_mut(&path_of(m, id)))?.value.touched += 1;
                        t
                    }
                    Remove(id) => {
                        let mut p = path_of(m, id);
                        let $slot = p.pop().unwrap();
                        let $p = some("at_path_mut", t.at_path_mut(&p))?;
                        $take;
                        t
                    }
                    Add(id, $s2) => {
                        let $q = some("at_path_mut", t.at_path_mut(&path_of(m, id)))?;
                        let $leaf = Self::build(&M { binary: m.binary, ..M::leaf(fresh) });
                        $add;
                        t
                    }
                    At(id) => some("at_path", t.at_path(&path_of(m, id)))?,
                    Map => t.map(touch),
                    MapPath => t.map_path(|_, v| touch(v)),
                    MapMut => t.map_mut(|v| { v.touched += 1; v }).cloned(),
                    MapRef => t.map_ref(|v| v).cloned(),
                    MapEach => some("map_each", vec![Self::build(m), t].map_each(|v| touch(v)).nth(1))?,
                    Prune(id) => return Ok(t.prune(|v| v.id == id)),
                    PrunePath(id) => { let p = path_of(m, id); return Ok(t.prune_path(|q: &[usize], _| p == q)) }
                    PruneMut(id) => return Ok(t.prune_mut(|v| v.id == id).map(|t| t.cloned())),
                    PrunePathRef(id) => { let p = path_of(m, id); return Ok(t.prune_path_ref(|q: &[usize], _| p == q).map(|t| t.cloned())) }
                    Depth(d) => t.prune_depth(d),
                    DepthMut(d) => t.prune_depth_mut(d).cloned(),
                    Pipe(id, d) => return Ok(t.into_pipeline().map_tree(touch).prune(|v| v.id == id).prune_depth(d).collect_tree()),
                    Trees(id) => some("trees", vec![t].into_pipeline().map_trees(touch).prune(|v| v.id == id).trees().next())?,
                    Fold => t.fold(|$kids: $K, v| { let $v = touch(v); $fold }),
                    Clone => { let c = t.clone(); drop(t); c }
                    BoomMap(k) => {
                        let mut n = 0;
                        boom(|| drop(t.map_mut(|v| { if n == k { resume_unwind(Box::new(Boom)) } n += 1; v.touched += 1; })))?;
                        t
                    }
                    BoomPrune(k) => {
                        let mut n = 0;
                        boom(|| drop(t.prune_mut(|_| { if n == k { resume_unwind(Box::new(Boom)) } n += 1; false })))?;
                        t
                    }
                    BoomFold(k) => {
                        let mut n = 0;
                        boom(|| t.fold_path_mut(|_, _, v| { if n == k { resume_unwind(Box::new(Boom)) } n += 1; v.touched += 1; }))?;
                        t
                    }
                }))
            }
        }
    };
    (@in $t:ident, $m:ident, $o:ident, $v:ident, $k:ident, yes) => { walk!($t, $m, dfs_inorder_iter_mut, $o, $v, $k) };
    (@in $t:ident, $m:ident, $o:ident, $v:ident, $k:ident, no) => { () };
}
hist!(Tree, Vec<Tree<V>>, [no], (x) => drop(x.children_mut().remove(0)),
    (p, slot) => drop(p.children.remove(slot)),
    (q, s, leaf) => q.children.insert(s, leaf),
    (kids, v) => Tree { value: v, children: kids });
hist!(BinaryTree, [Option<BinaryTree<V>>; 2], [yes], (x) => { let c = x.children_mut(); let s = if c[0].is_some() { 0 } else { 1 }; c[s] = None },
    (p, slot) => if slot == 0 { p.left = None } else { p.right = None },
    (q, s, leaf) => if s == 0 { q.left = Some(Box::new(leaf)) } else { q.right = Some(Box::new(leaf)) },
    (kids, v) => { let [l, r] = kids; BinaryTree { value: v, left: l.map(Box::new), right: r.map(Box::new) } });

fn histories<N: Hist>(c: &mut Ctx, kinds: &Kinds<N>, m: &M, depth: usize, full: bool, now: &M, hist: &mut Vec<Op>) {
    if hist.len() == depth {
        let reads: Vec<_> = kinds.iter().filter_map(|k| if let Mk::Ref(f) = k.1 { Some((&k.0, f)) } else { None }).collect();
        return c.case(&|| format!("{m}: {hist:?}"), &mut |st| {
            let (mut t, mut want) = (N::build(m), m.clone());
            for (i, op) in hist.iter().enumerate() {
                st.step();
                let r = t.step(op, &want, 100 + i as u32)?;
                apply(&mut want, op, 100 + i as u32);
                t = match r {
                    Some(t) => t,
                    None => return Err(format!("operation {i} left nothing, expected {want}")),
                };
                let back = t.back();
                if back != want {
                    return Err(format!("operation {i} left {back}, expected {want}"));
                }
                // one of the shared traversals, in turn
                let (l, f) = &reads[(st.transitions as usize + hist.len() + want.size()) % reads.len()];
                let got = {
                    let mut s = f(&t);
                    let mut out = vec![];
                    while let Some(x) = s() {
                        st.step();
                        out.push(x);
                    }
                    out
                };
                let fresh = N::build(&want);
                let mut s = f(&fresh);
                for (k, x) in got.iter().map(Some).chain([None]).enumerate() {
                    let y = s();
                    if x != y.as_ref() {
                        return Err(format!("element {k} of {l} after operation {i} was {x:?}, on a new tree {want} it is {y:?}"));
                    }
                }
            }
            st.see(want.size() as u64);
            Ok(())
        });
    }
    for op in ops(now, full) {
        let mut next = now.clone();
        apply(&mut next, &op, 100 + hist.len() as u32);
        hist.push(op);
        histories(c, kinds, m, depth, full, &next, hist);
        hist.pop();
    }
}

macro_rules! all {
    ($c:ident, $N:ty, $nm:literal, $sources:ident, $shapes:ident, $K:ty, $fold:path, $(hist $h:ident)?) => {{
        let mut kinds: Kinds<$N> = vec![];
        $sources!(kind, $N, $nm, (kinds));
        pipe_kinds!($N, $nm, kinds);
        let (mut outs, mut inns): (Vec<(String, Out<$N>)>, Vec<Inner<$N>>) = (vec![], vec![]);
        outer!(Own, $N, $nm, $K, $fold, outs, inns, map, map_path, prune, prune_path, fold, fold_path, into_pipeline);
        outer!(Mut, $N, $nm, $K, $fold, outs, inns, map_mut, map_path_mut, prune_mut, prune_path_mut, fold_mut, fold_path_mut, into_pipeline_mut);
        outer!(Ref, $N, $nm, $K, $fold, outs, inns, map_ref, map_path_ref, prune_ref, prune_path_ref, fold_ref, fold_path_ref, into_pipeline_ref);
        let upto = |n: usize| -> Vec<M> { (1..=n).flat_map(|s| $shapes(s)).collect() };
        let n = $c.pick(3, 4, 2);
        $c.bound(format!("two traversals in progress at once, every pair of kinds on every pair of shapes with <= {n} nodes (two trees, or one shared), in every order of steps"));
        for a in &upto(n) {
            for b in &upto(n) {
                if $c.mine() {
                    pairs(&mut *$c, &kinds, a, b);
                }
            }
        }
        let n = $c.pick(3, 4, 2);
        $c.bound(format!("every pair of kinds on every pair of shapes with <= {n} nodes, the first abandoned after every number of steps"));
        for a in &upto(n) {
            for b in &upto(n) {
                if $c.mine() {
                    abandoned(&mut *$c, &kinds, a, b);
                }
            }
        }
        let n = $c.pick(1, 2, 1);
        $c.bound(format!("three traversals of one shared tree with <= {n} nodes, every triple of kinds, in every order of steps"));
        for m in &upto(n) {
            if $c.mine() {
                triples(&mut *$c, &kinds, m);
            }
        }
        let n = $c.pick(5, 7, 3);
        $c.bound(format!("every operation, and every traversal step by step, inside the closures of every transform, every shape with <= {n} nodes"));
        for m in &upto(n) {
            if $c.mine() {
                nested(&mut *$c, &outs, &inns, &kinds, m);
            }
        }
        $(
            let sizes = $c.pick(vec![34], vec![17, 34, 66], vec![]);
            $c.bound(format!("every pair of kinds, the first abandoned after every number of steps, on pairs of a tree of the 15 families of the sizes {sizes:?} and a small tree, in both orders, or the same tree"));
            for m in &$h(&sizes) {
                for small in $shapes(3).iter().take(1) {
                    for (a, b) in [(m, m), (m, small), (small, m)] {
                        if $c.mine() {
                            abandoned(&mut *$c, &kinds, a, b);
                        }
                    }
                }
            }
            let sizes = $c.pick(vec![17], vec![17, 34], vec![]);
            $c.bound(format!("every operation, and every traversal step by step, inside the closures of every transform, on the 15 families of trees of the sizes {sizes:?}"));
            for m in &$h(&sizes) {
                if $c.mine() {
                    nested(&mut *$c, &outs, &inns, &kinds, m);
                }
            }
            for (n, depth, full) in $c.pick([(5, 2, true), (3, 3, true), (3, 4, false)], [(6, 2, true), (4, 3, true), (4, 4, false)], [(2, 1, true), (2, 2, false), (1, 3, false)]) {
                $c.bound(format!("every sequence of {depth} operations ({} set) on every shape with <= {n} nodes", if full { "full" } else { "reduced" }));
                for m in &upto(n) {
                    for op in ops(m, full) {
                        if $c.mine() {
                            let mut next = m.clone();
                            apply(&mut next, &op, 100);
                            histories(&mut *$c, &kinds, m, depth, full, &next, &mut vec![op]);
                        }
                    }
                }
            }
        )?
    }};
}

// ---- collections of trees ----------------------------------------------------------------------
/// the trees under a nameless root
struct Many<N>(Vec<N>);
impl<N: Build> Build for Many<N> {
    fn build(m: &M) -> Self {
        Many(m.kids.iter().map(N::build).collect())
    }
    fn back(&self) -> M {
        M { kids: self.0.iter().map(N::back).collect(), ..M::leaf(0) }
    }
    fn nid(&self) -> u32 {
        0
    }
}
fn flat(m: M) -> Vec<u32> {
    m.infos().into_iter().flat_map(|i| [i.id, i.path.len() as u32]).chain([m.id]).collect()
}
macro_rules! many_kind {
    ($V:ident, $N:ty, $label:expr, ($t:ident) => $e:expr, $out:ident, plain) => {
        kind!(@one $V, $label.to_string(), Many<$N>, ($t, it = $e), $out, it.next().map(|v| vec![Obs::id(&v)]));
    };
    ($V:ident, $N:ty, $label:expr, ($t:ident) => $e:expr, $out:ident, context) => {
        many_kind!($V, $N, $label, ($t) => $e, $out, plain);
        kind!(@one $V, format!("{}.attach_context()", $label), Many<$N>, ($t, it = ($e).attach_context()), $out, it.next().map(|x| {
            let mut r: Vec<u32> = x.path().iter().map(|p| *p as u32).collect();
            r.push(u32::MAX);
            r.extend(ids(x.ancestors()));
            r
        }));
    };
    ($V:ident, $N:ty, $label:expr, ($t:ident) => $e:expr, $out:ident, pipe) => {
        kind!(@one $V, $label.to_string(), Many<$N>, ($t, it = $e), $out, it.next().map(|v| {
            let mut r: Vec<u32> = it.current_path().iter().map(|p| *p as u32).collect();
            r.extend([it.current_depth() as u32, Obs::id(&v)]);
            r
        }));
    };
    ($V:ident, $N:ty, $label:expr, ($t:ident) => $e:expr, $out:ident, trees) => {
        kind!(@one $V, $label.to_string(), Many<$N>, ($t, it = $e), $out, it.next().map(|t| flat(t.model())));
    };
    ($V:ident, $N:ty, $label:expr, ($t:ident) => $e:expr, $out:ident, models) => {
        kind!(@one $V, $label.to_string(), Many<$N>, ($t, it = $e), $out, it.next().map(flat));
    };
}
macro_rules! many_kinds {
    ($N:ty, $nm:literal, $K:ty, $fold:path, $out:ident, $($ino:ident)?) => {
        many_kinds!(@ Own, $N, concat!("Vec<", $nm, ">"), $K, $fold, $out, (t) => t.0, [bfs_each dfs_preorder_each dfs_postorder_each], map_each, map_path_each, prune_each, prune_path_each, fold_each, fold_path_each, into_pipeline);
        many_kinds!(@ Mut, $N, concat!("&mut Vec<", $nm, ">"), $K, $fold, $out, (t) => (&mut t.0), [bfs_each_iter_mut dfs_preorder_each_iter_mut dfs_postorder_each_iter_mut], map_each_mut, map_path_each_mut, prune_each_mut, prune_path_each_mut, fold_each_mut, fold_path_each_mut, into_pipeline_mut);
        many_kinds!(@ Ref, $N, concat!("&Vec<", $nm, ">"), $K, $fold, $out, (t) => (&t.0), [bfs_each_iter dfs_preorder_each_iter dfs_postorder_each_iter], map_each_ref, map_path_each_ref, prune_each_ref, prune_path_each_ref, fold_each_ref, fold_path_each_ref, into_pipeline_ref);
        many_kind!(Mut, $N, concat!("&mut Vec<", $nm, ">.prune_depth_each_mut(1)"), (t) => t.0.iter_mut().prune_depth_each_mut(1), $out, trees);
        many_kind!(Ref, $N, concat!("&Vec<", $nm, ">.prune_depth_each_ref(2)"), (t) => t.0.iter().prune_depth_each_ref(2), $out, trees);
        $(
            let _ = stringify!($ino);
            many_kind!(Own, $N, concat!("Vec<", $nm, ">.dfs_inorder_each()"), (t) => t.0.dfs_inorder_each(), $out, context);
            many_kind!(Mut, $N, concat!("IterMut<", $nm, ">.dfs_inorder_each_iter_mut()"), (t) => t.0.iter_mut().dfs_inorder_each_iter_mut(), $out, context);
            many_kind!(Ref, $N, concat!("Iter<", $nm, ">.dfs_inorder_each_iter()"), (t) => t.0.iter().dfs_inorder_each_iter(), $out, context);
        )?
    };
    (@ $V:ident, $N:ty, $nm:expr, $K:ty, $fold:path, $out:ident, ($t:ident) => $coll:expr, [$($trav:ident)*], $map:ident, $map_path:ident, $prune:ident, $prune_path:ident, $fld:ident, $fold_path:ident, $pipe:ident) => {
        $(many_kind!($V, $N, format!("{}.{}()", $nm, stringify!($trav)), ($t) => $coll.$trav(), $out, context);)*
        many_kind!($V, $N, format!("{}.{}()", $nm, stringify!($map)), ($t) => $coll.$map(|v| v), $out, trees);
        many_kind!($V, $N, format!("{}.{}()", $nm, stringify!($map_path)), ($t) => $coll.$map_path(|p: &[usize], v| (p.len(), v)).map(|t| t.bfs().map(|(n, v)| Obs::id(&v) * 10 + n as u32).fold(M::leaf(0), |mut a, i| { a.kids.push(M::leaf(i)); a })), $out, models);
        many_kind!($V, $N, format!("{}.{}()", $nm, stringify!($prune)), ($t) => $coll.$prune(|v| Obs::id(v) % 3 == 1), $out, trees);
        many_kind!($V, $N, format!("{}.{}()", $nm, stringify!($prune_path)), ($t) => $coll.$prune_path(|p: &[usize], v| p.len() == 2 && Obs::id(v) % 2 == 1), $out, trees);
        many_kind!($V, $N, format!("{}.{}()", $nm, stringify!($fld)), ($t) => $coll.$fld(|k: $K, v| $fold(k, Obs::id(&v), 0)), $out, models);
        many_kind!($V, $N, format!("{}.{}()", $nm, stringify!($fold_path)), ($t) => $coll.$fold_path(|k: $K, p: &[usize], v| $fold(k, Obs::id(&v) * 10 + p.len() as u32, 0)), $out, models);
        many_kind!($V, $N, format!("{}.{}() prune", $nm, stringify!($pipe)), ($t) => $coll.$pipe().prune(|v| Obs::id(v) % 3 == 1), $out, pipe);
        many_kind!($V, $N, format!("{}.{}() map_trees prune_path", $nm, stringify!($pipe)), ($t) => $coll.$pipe().map_trees(|v| v).prune_path(|p, v| p.len() == 2 && Obs::id(v) % 2 == 1), $out, pipe);
        many_kind!($V, $N, format!("{}.{}() prune_depth map_path trees", $nm, stringify!($pipe)), ($t) => $coll.$pipe().prune_depth(1).map_path(|p, v| Obs::id(&v) * 10 + p.len() as u32).trees(), $out, trees);
    };
}
macro_rules! many_outer {
    ($V:ident, $N:ty, $nm:expr, $K:ty, $fold:path, $out:ident, $inn:ident, ($c:ident) => $coll:expr, $map:ident, $map_path:ident, $prune:ident, $prune_path:ident, $fld:ident, $fold_path:ident, $pipe:ident) => {
        outer!(@ $V, Many<$N>, $nm, $out, $inn, $map, ($c, h) => $coll.$map(|v| { h(); Obs::id(&v) }).map(|t| t.model()).collect());
        outer!(@ $V, Many<$N>, $nm, $out, $inn, $map_path, ($c, h) => $coll.$map_path(|p: &[usize], v| { h(); Obs::id(&v) * 100 + p.len() as u32 }).map(|t| t.model()).collect());
        outer!(@ $V, Many<$N>, $nm, $out, $inn, $prune, ($c, h) => $coll.$prune(|v| { h(); Obs::id(v) % 3 == 2 }).map(|t| t.model()).collect());
        outer!(@ $V, Many<$N>, $nm, $out, $inn, $prune_path, ($c, h) => $coll.$prune_path(|p: &[usize], v| { h(); p.len() == 2 && Obs::id(v) % 2 == 0 }).map(|t| t.model()).collect());
        outer!(@ $V, Many<$N>, $nm, $out, $inn, $fld, ($c, h) => $coll.$fld(|k: $K, v| { h(); $fold(k, Obs::id(&v), 0) }).collect());
        outer!(@ $V, Many<$N>, $nm, $out, $inn, $fold_path, ($c, h) => $coll.$fold_path(|k: $K, p: &[usize], v| { h(); $fold(k, Obs::id(&v) * 10 + p.len() as u32, 0) }).collect());
        outer!(@ $V, Many<$N>, $nm, $out, $inn, $pipe, ($c, h) => {
            let h = std::cell::RefCell::new(h);
            $coll.$pipe().map_path(|p, v| { h.borrow_mut()(); Obs::id(&v) * 10 + p.len() as u32 }).prune(|v| { h.borrow_mut()(); *v % 3 == 2 }).prune_depth(2).prune_path(|p, _| { h.borrow_mut()(); p == [1, 0] }).map_trees(|v| { h.borrow_mut()(); v }).trees().map(|t| t.model()).collect()
        });
    };
}
macro_rules! all_many {
    ($c:ident, $N:ty, $nm:literal, $forests:ident, $K:ty, $fold:path, $($ino:ident)?) => {{
        let mut kinds: Kinds<Many<$N>> = vec![];
        many_kinds!($N, $nm, $K, $fold, kinds, $($ino)?);
        let (mut outs, mut inns): (Vec<(String, Out<Many<$N>>)>, Vec<Inner<Many<$N>>>) = (vec![], vec![]);
        many_outer!(Own, $N, concat!("Vec<", $nm, ">"), $K, $fold, outs, inns, (t) => t.0, map_each, map_path_each, prune_each, prune_path_each, fold_each, fold_path_each, into_pipeline);
        many_outer!(Mut, $N, concat!("IterMut<", $nm, ">"), $K, $fold, outs, inns, (t) => t.0.iter_mut(), map_each_mut, map_path_each_mut, prune_each_mut, prune_path_each_mut, fold_each_mut, fold_path_each_mut, into_pipeline_mut);
        many_outer!(Ref, $N, concat!("Iter<", $nm, ">"), $K, $fold, outs, inns, (t) => t.0.iter(), map_each_ref, map_path_each_ref, prune_each_ref, prune_path_each_ref, fold_each_ref, fold_path_each_ref, into_pipeline_ref);
        let upto = |n: usize| -> Vec<M> { (0..=n).flat_map(|s| $forests(s)).map(|f| M { kids: f, ..M::leaf(0) }).collect() };
        let n = $c.pick(3, 3, 2);
        $c.bound(format!("two traversals, transforms or pipelines of collections in progress at once, every pair of kinds on every pair of collections with <= {n} nodes in total, in every order of steps"));
        for a in &upto(n) {
            for b in &upto(n) {
                if $c.mine() {
                    pairs(&mut *$c, &kinds, a, b);
                }
            }
        }
        let n = $c.pick(4, 4, 2);
        $c.bound(format!("every pair of kinds on every pair of collections with <= {n} nodes in total, the first abandoned after every number of steps"));
        for a in &upto(n) {
            for b in &upto(n) {
                if $c.mine() {
                    abandoned(&mut *$c, &kinds, a, b);
                }
            }
        }
        let n = $c.pick(1, 2, 1);
        $c.bound(format!("three of them on one shared collection with <= {n} nodes in total, every triple of kinds, in every order of steps"));
        for m in &upto(n) {
            if $c.mine() {
                triples(&mut *$c, &kinds, m);
            }
        }
        let n = $c.pick(4, 6, 2);
        $c.bound(format!("every operation on a collection, and every traversal, transform or pipeline step by step, inside the closures of every transform of a collection, every collection with <= {n} nodes in total"));
        for m in &upto(n) {
            if $c.mine() {
                nested(&mut *$c, &outs, &inns, &kinds, m);
            }
        }
    }};
}

pub fn run(c: &mut Ctx) {
    c.check_leaks = true;
    all!(c, Tree<V>, "Tree", nary_sources_for, nary_shapes, Vec<M>, fold_nary, hist nary_families_of);
    all!(c, BinaryTree<V>, "BinaryTree", bin_sources_for, binary_shapes, [Option<M>; 2], fold_bin, hist binary_families_of);
    all!(c, INode, "INode", nary_sources_for, nary_shapes, Vec<M>, fold_nary,);
    all!(c, CBin, "CBin", bin_sources_for, binary_shapes, [Option<M>; 2], fold_bin,);
    all_many!(c, Tree<V>, "Tree", nary_forests, Vec<M>, fold_nary,);
    all_many!(c, BinaryTree<V>, "BinaryTree", binary_forests, [Option<M>; 2], fold_bin, inorder);
}

#[allow(dead_code)]
fn main() {
    main_for("C22", &[], run);
}
