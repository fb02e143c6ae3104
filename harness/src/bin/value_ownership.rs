//! Every value handed to the library is dropped exactly once: at exhaustion, when an iterator is
//! abandoned after any number of elements, and when a user closure panics at any call.
use mc::tree_iterators_rs::prelude::*;
use mc::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// where to abandon: everywhere on small trees
fn points(n: usize) -> Vec<usize> {
    if n <= 12 {
        (0..=n + 1).collect()
    } else {
        cuts(n)
    }
}
fn points2(n: usize) -> Vec<usize> {
    if n <= 12 {
        (0..=n + 1).collect()
    } else {
        vec![0, 1, n / 2, n, n + 1]
    }
}

macro_rules! plain {
    ($own:ident, $label:expr, $order:expr, $N:ty, ($t:ident) => $it:expr, $c:ident, $m:ident) => {
        for k in points($m.size()) {
            $c.case(&|| format!("{} abandoned after {k} on {}", $label, $m), &mut |st| {
                #[allow(unused_mut)]
                let mut $t = <$N>::build($m);
                let kept: Vec<_> = $it.take(k).collect();
                st.steps(kept.len());
                st.sees(kept.iter().map(|v| Obs::id(v)));
                drop(kept);
                Ok(())
            });
            for j in points2($m.leaf_ids().len()) {
                $c.case(&|| format!("{} then leaves() after {k}, abandoned after {j} on {}", $label, $m), &mut |st| {
                    #[allow(unused_mut)]
                    let mut $t = <$N>::build($m);
                    let mut it = $it;
                    let kept: Vec<_> = it.by_ref().take(k).collect();
                    let leaves: Vec<_> = it.leaves().take(j).collect();
                    st.steps(kept.len() + leaves.len());
                    st.sees(leaves.iter().map(|v| Obs::id(v)));
                    Ok(())
                });
            }
        }
    };
}
macro_rules! stream {
    ($own:ident, $label:expr, $order:expr, $N:ty, ($t:ident) => $it:expr, $c:ident, $m:ident) => {
        for k in points($m.size()) {
            $c.case(&|| format!("{}.attach_context() abandoned after {k} on {}", $label, $m), &mut |st| {
                #[allow(unused_mut)]
                let mut $t = <$N>::build($m);
                let mut it = $it.attach_context();
                for _ in 0..k {
                    st.step();
                    if let Some(x) = it.next() {
                        st.sees(x.ancestors().iter().map(|v| Obs::id(v)));
                    } else {
                        break;
                    }
                }
                Ok(())
            });
            $c.case(&|| format!("{}.attach_ancestors() abandoned after {k} on {}", $label, $m), &mut |st| {
                #[allow(unused_mut)]
                let mut $t = <$N>::build($m);
                let mut it = $it.attach_ancestors();
                for _ in 0..k {
                    st.step();
                    if let Some(x) = it.next() {
                        st.sees(x.iter().map(|v| Obs::id(v)));
                    } else {
                        break;
                    }
                }
                Ok(())
            });
            for j in points2($m.leaf_ids().len()) {
                $c.case(&|| format!("{}.attach_ancestors() then leaves() after {k}, abandoned after {j} on {}", $label, $m), &mut |st| {
                    #[allow(unused_mut)]
                    let mut $t = <$N>::build($m);
                    let mut it = $it.attach_ancestors();
                    for _ in 0..k {
                        st.step();
                        if it.next().is_none() {
                            break;
                        }
                    }
                    let mut it = it.leaves();
                    for _ in 0..j {
                        st.step();
                        if let Some(x) = it.next() {
                            st.sees(x.iter().map(|v| Obs::id(v)));
                        } else {
                            break;
                        }
                    }
                    Ok(())
                });
            }
        }
    };
}

struct Boom;
/// runs `f`, in which a closure panics with `Boom` at its `at`-th call
fn boom(at: usize, f: impl FnOnce(&mut dyn FnMut())) -> Result<(), String> {
    let mut n = 0;
    let mut tick = || {
        n += 1;
        if n == at {
            std::panic::resume_unwind(Box::new(Boom));
        }
    };
    match catch_unwind(AssertUnwindSafe(|| f(&mut tick))) {
        Ok(()) => Ok(()),
        Err(e) if e.is::<Boom>() => Ok(()),
        Err(_) => Err("a panic other than the closure's".into()),
    }
}
macro_rules! transforms {
    ($c:ident, $m:ident, $N:ty, $nm:literal, $K:ty, $fold:path) => {
        for at in 0..=$m.size() {
            transforms!(@ $c, $m, $N, $nm, at, (t, tick), "map", { drop(t.map(|v| { tick(); v })) });
            transforms!(@ $c, $m, $N, $nm, at, (t, tick), "map_path", { drop(t.map_path(|_, v| { tick(); v })) });
            transforms!(@ $c, $m, $N, $nm, at, (t, tick), "fold", { drop(t.fold(|k: $K, v| { tick(); $fold(k, Obs::id(&v), 0) })) });
            transforms!(@ $c, $m, $N, $nm, at, (t, tick), "fold_path", { drop(t.fold_path(|k: $K, _, v| { tick(); $fold(k, Obs::id(&v), 0) })) });
            transforms!(@ $c, $m, $N, $nm, at, (t, tick), "map_mut", { drop(t.map_mut(|v| { tick(); v.id() })) });
            transforms!(@ $c, $m, $N, $nm, at, (t, tick), "fold_mut", { drop(t.fold_mut(|k: $K, v| { tick(); $fold(k, Obs::id(&v), 0) })) });
            transforms!(@ $c, $m, $N, $nm, at, (t, tick), "map_ref", { drop(t.map_ref(|v| { tick(); v.clone() })) });
            transforms!(@ $c, $m, $N, $nm, at, (t, tick), "fold_ref", { drop(t.fold_ref(|k: $K, v| { tick(); $fold(k, Obs::id(&v), 0) })) });
            for mask in (0..1u32 << $m.size().min(5)).step_by(if $m.size() > 12 { 6 } else { 1 }) {
                transforms!(@ $c, $m, $N, $nm, at, (t, tick), format!("prune{}", ids(mask)), { drop(t.prune(|v| { tick(); has(mask, v.id()) })) });
                transforms!(@ $c, $m, $N, $nm, at, (t, tick), format!("prune_path{}", ids(mask)), { drop(t.prune_path(|_, v| { tick(); has(mask, v.id()) })) });
            }
        }
        for d in 0..=$m.height() + 1 {
            transforms!(@ $c, $m, $N, $nm, 0, (t, tick), format!("prune_depth({d})"), { let _ = tick; drop(t.prune_depth(d)) });
        }
    };
    (@ $c:ident, $m:ident, $N:ty, $nm:literal, $at:expr, ($t:ident, $tick:ident), $name:expr, $body:block) => {
        $c.case(&|| format!("{}.{}, panic at call {} on {}", $nm, $name, $at, $m), &mut |st| {
            st.step();
            boom($at, |$tick| {
                #[allow(unused_mut)]
                let mut $t = <$N>::build($m);
                $body
            })
        });
    };
}

macro_rules! coll {
    (owned, $k:ident, $label:expr, $N:ty, [$g:expr], ($v:ident = $prep:expr) => $coll:expr, $c:ident, $f:ident, $n:ident) => {
        if $g {
            for k in 0..=$n + 1 {
                coll!(@plain $label, $c, $f, k, ($v = $prep) => $coll, bfs_each);
                coll!(@plain $label, $c, $f, k, ($v = $prep) => $coll, dfs_preorder_each);
                coll!(@plain $label, $c, $f, k, ($v = $prep) => $coll, dfs_postorder_each);
                coll!(@$k $label, $c, $f, k, ($v = $prep) => $coll);
            }
            for at in 0..=$n {
                for take in 0..=$f.len() + 1 {
                    coll!(@boom $label, $c, $f, at, take, ($v = $prep, tick) => "map_each", $coll.map_each(|v| { tick(); v }));
                    coll!(@boom $label, $c, $f, at, take, ($v = $prep, tick) => "map_path_each", $coll.map_path_each(|_: &[usize], v| { tick(); v }));
                    coll!(@boom $label, $c, $f, at, take, ($v = $prep, tick) => "fold_each", $coll.fold_each(|k, v| { tick(); (Box::new(v), k.into_iter().count()) }));
                    coll!(@boom $label, $c, $f, at, take, ($v = $prep, tick) => "prune_each{1}", $coll.prune_each(|v| { tick(); v.id() == 1 }));
                    coll!(@boom $label, $c, $f, at, take, ($v = $prep, tick) => "prune_path_each{2}", $coll.prune_path_each(|_: &[usize], v: &V| { tick(); v.id() == 2 }));
                }
            }
        }
    };
    ($own:ident, $k:ident, $label:expr, $N:ty, [$g:expr], ($v:ident = $prep:expr) => $coll:expr, $c:ident, $f:ident, $n:ident) => {};
    (@nary $label:expr, $c:ident, $f:ident, $kk:ident, ($v:ident = $prep:expr) => $coll:expr) => {};
    (@bin $label:expr, $c:ident, $f:ident, $kk:ident, ($v:ident = $prep:expr) => $coll:expr) => {
        coll!(@plain $label, $c, $f, $kk, ($v = $prep) => $coll, dfs_inorder_each);
    };
    (@plain $label:expr, $c:ident, $f:ident, $kk:ident, ($v:ident = $prep:expr) => $coll:expr, $meth:ident) => {
        $c.case(&|| format!("{}.{}() abandoned after {} on {}", $label, stringify!($meth), $kk, forest_str($f)), &mut |st| {
            #[allow(unused_mut)]
            let mut $v = $prep;
            let kept: Vec<_> = $coll.$meth().take($kk).collect();
            st.steps(kept.len());
            st.sees(kept.iter().map(|v| Obs::id(v)));
            Ok(())
        });
        $c.case(&|| format!("{}.{}().attach_context() abandoned after {} on {}", $label, stringify!($meth), $kk, forest_str($f)), &mut |st| {
            #[allow(unused_mut)]
            let mut $v = $prep;
            let mut it = $coll.$meth().attach_context();
            for _ in 0..$kk {
                st.step();
                if let Some(x) = it.next() {
                    st.sees(x.ancestors().iter().map(|v| Obs::id(v)));
                } else {
                    break;
                }
            }
            Ok(())
        });
    };
    (@boom $label:expr, $c:ident, $f:ident, $at:ident, $take:ident, ($v:ident = $prep:expr, $tick:ident) => $name:literal, $call:expr) => {
        $c.case(&|| format!("{}.{} taking {}, panic at call {} on {}", $label, $name, $take, $at, forest_str($f)), &mut |st| {
            st.step();
            boom($at, |$tick| {
                #[allow(unused_mut)]
                let mut $v = $prep;
                let kept: Vec<_> = $call.take($take).collect();
                drop(kept);
            })
        });
    };
}
fn nary_c(c: &mut Ctx, f: &[M], n: usize) {
    nary_colls!(coll, f, (c, f, n));
}
fn binary_c(c: &mut Ctx, f: &[M], n: usize) {
    bin_colls!(coll, f, (c, f, n));
}

// ---- a node's own accessor panics ---------------------------------------------------------------
/// drive with the `at`-th accessor call panicking, and on after that panic
fn refused<T>(at: u32, n: usize, st: &mut Stats, mut next: impl FnMut() -> Option<T>) -> Result<Vec<T>, String> {
    let mut kept = vec![];
    track::arm(at);
    let mut hit = false;
    for _ in 0..n + 2 {
        st.step();
        match catch_unwind(AssertUnwindSafe(&mut next)) {
            Ok(Some(v)) => kept.push(v),
            Ok(None) => break,
            Err(e) if e.is::<track::Refused>() => hit = true,
            // an iterator whose source panicked may be unusable, but not unsound
            Err(_) if hit => break,
            Err(_) => {
                track::arm(0);
                return Err("a panic other than the accessor's".into());
            }
        }
    }
    track::arm(0);
    Ok(kept)
}
macro_rules! accessor {
    ($own:ident, $label:expr, $order:expr, $N:ty, ($t:ident) => $it:expr, $c:ident, $m:ident) => {
        for at in 1..=$m.size() {
            $c.case(&|| format!("{}, accessor call {at} panics on {}", $label, $m), &mut |st| {
                #[allow(unused_mut)]
                let mut $t = <$N>::build($m);
                let mut it = $it;
                let kept = refused(at as u32, $m.size(), st, || it.next())?;
                st.sees(kept.iter().map(|v| Obs::id(v)));
                drop(it);
                st.sees(kept.iter().map(|v| Obs::id(v)));
                Ok(())
            });
            for k in 0..$m.size() {
                $c.case(&|| format!("{} then leaves() after {k}, accessor call {at} panics on {}", $label, $m), &mut |st| {
                    #[allow(unused_mut)]
                    let mut $t = <$N>::build($m);
                    let mut it = $it;
                    let first: Vec<_> = it.by_ref().take(k).collect();
                    let mut it = it.leaves();
                    let kept = refused(at as u32, $m.size(), st, || it.next())?;
                    st.sees(kept.iter().map(|v| Obs::id(v)));
                    drop(it);
                    st.sees(first.iter().map(|v| Obs::id(v)));
                    Ok(())
                });
            }
            $c.case(&|| format!("{}.attach_context(), accessor call {at} panics on {}", $label, $m), &mut |st| {
                #[allow(unused_mut)]
                let mut $t = <$N>::build($m);
                let mut it = $it.attach_context();
                let kept = refused(at as u32, $m.size(), st, || it.next().map(|x| x.ancestors().iter().map(|v| Obs::id(v)).collect::<Vec<_>>()))?;
                st.sees(kept.into_iter().flatten());
                Ok(())
            });
            $c.case(&|| format!("{}.attach_ancestors(), accessor call {at} panics on {}", $label, $m), &mut |st| {
                #[allow(unused_mut)]
                let mut $t = <$N>::build($m);
                let mut it = $it.attach_ancestors();
                let kept = refused(at as u32, $m.size(), st, || it.next().map(|x| x.iter().map(|v| Obs::id(v)).collect::<Vec<_>>()))?;
                st.sees(kept.into_iter().flatten());
                Ok(())
            });
        }
    };
}
fn accessors_nary(c: &mut Ctx, m: &M) {
    nary_sources_for!(accessor, LNode, "LNode", (c, m));
    nary_sources_for!(accessor, INode, "INode", (c, m));
}
fn accessors_binary(c: &mut Ctx, m: &M) {
    bin_sources_for!(accessor, CBin, "CBin", (c, m));
}
macro_rules! accessor_transforms {
    ($c:ident, $m:ident, $N:ty, $nm:literal, $K:ty, $fold:path) => {
        for at in 1..=$m.size() as u32 {
            accessor_transforms!(@ $c, $m, $N, $nm, at, "map", (t) => drop(t.map(|v| v)));
            accessor_transforms!(@ $c, $m, $N, $nm, at, "fold", (t) => drop(t.fold(|k: $K, v| $fold(k, Obs::id(&v), 0))));
            accessor_transforms!(@ $c, $m, $N, $nm, at, "prune", (t) => drop(t.prune(|v| v.id() == 1)));
            accessor_transforms!(@ $c, $m, $N, $nm, at, "prune_path", (t) => drop(t.prune_path(|_: &[usize], v| v.id() == 2)));
            accessor_transforms!(@ $c, $m, $N, $nm, at, "prune_depth(2)", (t) => drop(t.prune_depth(2)));
            accessor_transforms!(@ $c, $m, $N, $nm, at, "collect_tree", (t) => drop(t.into_pipeline().collect_tree()));
            accessor_transforms!(@ $c, $m, $N, $nm, at, "map_mut", (t) => drop(t.map_mut(|v| v.clone())));
            accessor_transforms!(@ $c, $m, $N, $nm, at, "fold_ref", (t) => drop(t.fold_ref(|k: $K, v| $fold(k, Obs::id(&v), 0))));
            for info in $m.infos() {
                accessor_transforms!(@ $c, $m, $N, $nm, at, format!("at_path({:?})", info.path), (t) => drop(t.at_path(&info.path)));
            }
        }
    };
    (@ $c:ident, $m:ident, $N:ty, $nm:literal, $at:ident, $name:expr, ($t:ident) => $e:expr) => {
        $c.case(&|| format!("{}.{}, accessor call {} panics on {}", $nm, $name, $at, $m), &mut |st| {
            st.step();
            #[allow(unused_mut)]
            let mut $t = <$N>::build($m);
            track::arm($at);
            let r = catch_unwind(AssertUnwindSafe(|| $e));
            track::arm(0);
            match r {
                Err(e) if !e.is::<track::Refused>() => Err("a panic other than the accessor's".into()),
                _ => Ok(()),
            }
        });
    };
}

// ---- pipelines ----------------------------------------------------------------------------------
/// what a pipeline is consumed by
#[derive(Clone, Copy, Debug)]
enum End {
    Take(usize),
    Collect,
    Fold,
    FoldPath,
}
macro_rules! piped {
    ($name:ident, $one:ident, $Trait:ident, $map:ident, $K:ty, $fold:path, $collect:ident, $foldm:ident) => {
        /// One stage (each closure calls `tick`), then the end. After a panic the pipeline is driven on.
        fn $name<C, I: $Trait<V, C>>(it: I, s: &[St], end: End, st: &mut Stats, tick: &mut dyn FnMut()) {
            match s {
                [] => $one(it, end, st, tick),
                s => {
                    let cell = std::cell::RefCell::new(tick);
                    let tk = || (cell.borrow_mut())();
                    match s[0] {
                        St::Map => $one(it.$map(|v| { tk(); v }), end, st, &mut || tk()),
                        St::MapPath => $one(it.map_path(|_, v| { tk(); v }), end, st, &mut || tk()),
                        St::Prune(m) => $one(it.prune(|v| { tk(); has(m, v.id()) }), end, st, &mut || tk()),
                        St::PrunePath(m) => $one(it.prune_path(|_, v| { tk(); has(m, v.id()) }), end, st, &mut || tk()),
                        St::Depth(d) => $one(it.prune_depth(d), end, st, &mut || tk()),
                        St::Cut(_) => unreachable!(),
                    }
                }
            }
        }
        fn $one<C, I: $Trait<V, C>>(mut it: I, end: End, st: &mut Stats, tick: &mut dyn FnMut()) {
            match end {
                End::Take(k) => {
                    let (mut kept, mut boom) = (vec![], None);
                    while kept.len() < k {
                        st.step();
                        match catch_unwind(AssertUnwindSafe(|| it.next())) {
                            Ok(Some(v)) => kept.push(v),
                            Ok(None) => break,
                            Err(e) => {
                                // a pipeline whose closure panicked may be unusable, but not unsound
                                if boom.is_some() {
                                    break;
                                }
                                boom = Some(e);
                            }
                        }
                    }
                    drop(it);
                    st.sees(kept.iter().map(|v| Obs::id(v)));
                    if let Some(e) = boom {
                        std::panic::resume_unwind(e);
                    }
                }
                End::Collect => it.$collect().into_iter().for_each(drop),
                End::Fold => it.$foldm(|k: $K, v| { tick(); $fold(k, v.id(), 0) }).into_iter().for_each(drop),
                End::FoldPath => it.fold_path(|k: $K, _: &[usize], v| { tick(); $fold(k, v.id(), 0) }).into_iter().for_each(drop),
            }
        }
    };
}
piped!(piped_nary, piped_nary_end, TreeIterator, map_tree, Vec<M>, fold_nary, collect_tree, fold_tree);
piped!(piped_bin, piped_bin_end, BinaryTreeIterator, map_tree, [Option<M>; 2], fold_bin, collect_tree, fold_tree);
piped!(piped_nary_coll, piped_nary_coll_end, TreeCollectionIterator, map_trees, Vec<M>, fold_nary, trees, fold_trees);
piped!(piped_bin_coll, piped_bin_coll_end, BinaryTreeCollectionIterator, map_trees, [Option<M>; 2], fold_bin, trees, fold_trees);
macro_rules! pipes {
    ($c:ident, $what:expr, $n:expr, $h:expr, $label:expr, ($t:ident = $prep:expr) => $it:expr, $run:ident) => {
        for len in 0..2 {
            chains(&stages($n, $h), len, &mut |ch| {
                let calls = $n * (len + 1);
                for end in (0..=$n + 1).map(End::Take).chain([End::Collect, End::Fold, End::FoldPath]) {
                    for at in 0..=if matches!(end, End::Take(_) | End::Collect) && len == 0 { 0 } else { calls } {
                        $c.case(&|| format!("{}{} {end:?}, panic at call {at} on {}", $label, chain_str(ch), $what), &mut |st| {
                            st.step();
                            boom(at, |tick| {
                                let $t = $prep;
                                $run($it, ch, end, st, tick)
                            })
                        });
                    }
                }
            });
        }
    };
}
fn pipes_nary(c: &mut Ctx, m: &M) {
    let (n, h) = (m.size(), m.height() + 1);
    pipes!(c, m, n, h, "Tree.into_pipeline()", (t = <Tree<V>>::build(m)) => t.into_pipeline(), piped_nary);
    pipes!(c, m, n, h, "INode.into_pipeline()", (t = INode::build(m)) => t.into_pipeline(), piped_nary);
}
fn pipes_binary(c: &mut Ctx, m: &M) {
    let (n, h) = (m.size(), m.height() + 1);
    pipes!(c, m, n, h, "BinaryTree.into_pipeline()", (t = <BinaryTree<V>>::build(m)) => t.into_pipeline(), piped_bin);
    pipes!(c, m, n, h, "CBin.into_pipeline()", (t = CBin::build(m)) => t.into_pipeline(), piped_bin);
}
fn pipes_nary_coll(c: &mut Ctx, f: &[M], n: usize) {
    let h = f.iter().map(|m| m.height() + 1).max().unwrap_or(1);
    pipes!(c, forest_str(f), n, h, "Vec<Tree>.into_pipeline()", (t = build_vec::<Tree<V>>(f)) => t.into_pipeline(), piped_nary_coll);
}
fn pipes_binary_coll(c: &mut Ctx, f: &[M], n: usize) {
    let h = f.iter().map(|m| m.height() + 1).max().unwrap_or(1);
    pipes!(c, forest_str(f), n, h, "Vec<BinaryTree>.into_pipeline()", (t = build_vec::<BinaryTree<V>>(f)) => t.into_pipeline(), piped_bin_coll);
}

pub fn run(c: &mut Ctx) {
    c.check_leaks = true;
    let n = c.pick(8, 9, 3);
    c.bound(format!("every n-ary and binary tree shape with <= {n} nodes x every traversal, abandoned after every number of elements (with leaves() at every point)"));
    for s in 1..=n {
        for m in &nary_shapes(s) {
            if c.mine() {
                nary_sources!(plain, (c, m));
                nary_sources!(stream, (c, m));
            }
        }
        for m in &binary_shapes(s) {
            if c.mine() {
                bin_sources!(plain, (c, m));
                bin_sources!(stream, (c, m));
            }
        }
    }
    let sizes = c.pick(vec![12, 17, 33, 65, 130], vec![12, 15, 16, 17, 24, 31, 32, 33, 34, 65, 66, 130, 258], vec![]);
    c.bound(format!("the same at many points on 15 families of larger trees of the sizes {sizes:?}"));
    for m in &nary_families_of(&sizes) {
        if c.mine() {
            nary_sources!(plain, (c, m));
            nary_sources!(stream, (c, m));
        }
    }
    for m in &binary_families_of(&sizes) {
        if c.mine() {
            bin_sources!(plain, (c, m));
            bin_sources!(stream, (c, m));
        }
    }
    let n = c.pick(7, 8, 3);
    c.bound(format!("every n-ary and binary tree shape with <= {n} nodes x every transform, closure panicking at every call"));
    for s in 1..=n {
        for m in &nary_shapes(s) {
            if c.mine() {
                transforms!(c, m, Tree<V>, "Tree", Vec<M>, fold_nary);
                transforms!(c, m, LNode, "LNode", Vec<M>, fold_nary);
                transforms!(c, m, INode, "INode", Vec<M>, fold_nary);
            }
        }
        for m in &binary_shapes(s) {
            if c.mine() {
                transforms!(c, m, BinaryTree<V>, "BinaryTree", [Option<M>; 2], fold_bin);
                transforms!(c, m, CBin, "CBin", [Option<M>; 2], fold_bin);
            }
        }
    }
    let sizes = c.pick(vec![17, 33, 66], vec![12, 16, 17, 24, 32, 33, 65, 66, 130, 258], vec![]);
    c.bound(format!("15 families of larger trees of the sizes {sizes:?} x every transform, closure panicking at every call"));
    for m in &nary_families_of(&sizes) {
        if c.mine() {
            transforms!(c, m, Tree<V>, "Tree", Vec<M>, fold_nary);
            transforms!(c, m, INode, "INode", Vec<M>, fold_nary);
        }
    }
    for m in &binary_families_of(&sizes) {
        if c.mine() {
            transforms!(c, m, BinaryTree<V>, "BinaryTree", [Option<M>; 2], fold_bin);
        }
    }
    let sizes = c.pick(vec![17, 33], vec![12, 16, 17, 33, 40], vec![]);
    c.bound(format!("collections of two trees of the 15 families of the sizes {sizes:?} x every container, abandoned at every point, closures panicking at every call"));
    for m in nary_families_of(&sizes) {
        if c.mine() {
            let f = number_forest(vec![m.clone(), m]);
            let n = f.iter().map(|m| m.size()).sum();
            nary_c(c, &f, n);
        }
    }
    for m in binary_families_of(&sizes) {
        if c.mine() {
            let f = number_forest(vec![m.clone(), m]);
            let n = f.iter().map(|m| m.size()).sum();
            binary_c(c, &f, n);
        }
    }
    let n = c.pick(6, 7, 2);
    c.bound(format!("every collection with <= {n} nodes in total x every container, abandoned at every point, closures panicking at every call"));
    for s in 0..=n {
        for f in &nary_forests(s) {
            if c.mine() {
                nary_c(c, f, s);
            }
        }
        for f in &binary_forests(s) {
            if c.mine() {
                binary_c(c, f, s);
            }
        }
    }
    let n = c.pick(6, 8, 3);
    c.bound(format!("every n-ary and binary tree shape of user-implemented nodes with <= {n} nodes x every traversal and transform, the nodes' accessor panicking at every call, and driven on after that"));
    for s in 1..=n {
        for m in &nary_shapes(s) {
            if c.mine() {
                accessors_nary(c, m);
                accessor_transforms!(c, m, LNode, "LNode", Vec<M>, fold_nary);
                accessor_transforms!(c, m, INode, "INode", Vec<M>, fold_nary);
            }
        }
        for m in &binary_shapes(s) {
            if c.mine() {
                accessors_binary(c, m);
                accessor_transforms!(c, m, CBin, "CBin", [Option<M>; 2], fold_bin);
            }
        }
    }
    let sizes = c.pick(vec![17, 33], vec![12, 16, 17, 33, 65], vec![]);
    c.bound(format!("user-implemented nodes in 15 families of larger trees of the sizes {sizes:?} x every traversal and transform, the accessor panicking at every call, and driven on after that"));
    for m in &nary_families_of(&sizes) {
        if c.mine() {
            accessors_nary(c, m);
            accessor_transforms!(c, m, LNode, "LNode", Vec<M>, fold_nary);
        }
    }
    for m in &binary_families_of(&sizes) {
        if c.mine() {
            accessors_binary(c, m);
            accessor_transforms!(c, m, CBin, "CBin", [Option<M>; 2], fold_bin);
        }
    }
    let (n, k) = c.pick((5, 5), (6, 6), (2, 2));
    c.bound(format!("every pipeline of up to one stage (every prune set, every depth limit) on every tree with <= {n} and collection with <= {k} nodes, abandoned at every point, collected and folded, closures panicking at every call"));
    for s in 1..=n {
        for m in &nary_shapes(s) {
            if c.mine() {
                pipes_nary(c, m);
            }
        }
        for m in &binary_shapes(s) {
            if c.mine() {
                pipes_binary(c, m);
            }
        }
    }
    for s in 0..=k {
        for f in &nary_forests(s) {
            if c.mine() {
                pipes_nary_coll(c, f, s);
            }
        }
        for f in &binary_forests(s) {
            if c.mine() {
                pipes_binary_coll(c, f, s);
            }
        }
    }
}

#[allow(dead_code)]
fn main() {
    main_for("C15", &[], run);
}
