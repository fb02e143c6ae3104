//! Collections of trees: the `*_each` transforms, for every container.
#![allow(unused_imports, unused_macros, dead_code)] // each check uses a part of it
use crate::*;
use mc::tree_iterators_rs::prelude::*;

// ---- map/fold/prune: results, closure calls and paths, consuming any number of results ----------

/// `got`: results of the first `take` calls to next(); `calls` must be a prefix of the model's calls
/// which covers at least the yielded trees (all of them when the iterator was exhausted).
fn check(got: Vec<M>, calls: &[Row], o: &Out, want_calls: &[Row], take: usize, st: &mut Stats) -> Result<(), String> {
    st.steps(got.len() + 1);
    st.sees(calls.iter().map(|r| r.0));
    st.sees(calls.iter().flat_map(|r| r.1.iter().map(|x| *x as u32)));
    let want: Vec<M> = o.forest.iter().take(take).map(|m| M { slot: 0, ..m.clone() }).collect();
    let got: Vec<M> = got.into_iter().map(|m| M { slot: 0, ..m }).collect();
    if got != want {
        return Err(format!("results {}, expected {}", forest_str(&got), forest_str(&want)));
    }
    let all = take > o.forest.len();
    let covered: usize = want.iter().map(|m| m.size()).sum();
    if calls.len() > want_calls.len() || *calls != want_calls[..calls.len()] || (all && calls.len() != want_calls.len()) || calls.len() < covered {
        return Err(format!("closure was called with {}, expected {}{}", rows_str(calls), if all { "" } else { "a prefix of " }, rows_str(want_calls)));
    }
    Ok(())
}
fn drain<I: Iterator>(mut it: I, take: usize, f: impl Fn(I::Item) -> M) -> Vec<M> {
    let mut out = vec![];
    for _ in 0..take {
        match it.next() {
            Some(x) => out.push(f(x)),
            None => break,
        }
    }
    out
}
fn nopath(r: &[Row]) -> Vec<Row> {
    r.iter().map(|(i, _)| (*i, vec![])).collect()
}

/// numbers of results to take, prune sets and depth limits: all of them for small collections
fn takes(n: usize) -> Vec<usize> {
    if n <= 12 {
        (0..=n + 1).collect()
    } else if n > 10_000 {
        vec![300, n + 1]
    } else {
        vec![0, 1, n / 2, n, n + 1]
    }
}
fn sets_of(n: usize) -> Vec<u32> {
    if n <= 12 {
        (0..1u32 << n).collect()
    } else if n > 10_000 {
        vec![every(2, 1), every(251, 3)]
    } else {
        big_sets()
    }
}
fn limits(h: usize) -> Vec<usize> {
    let mut v: Vec<usize> = if h <= 12 { (0..=h + 1).collect() } else { vec![0, 1, h / 2, h - 1, h, h + 1] };
    v.extend([1 << 8, 1 << 16, 1 << 32, usize::MAX]);
    v
}

/// a borrowed collection afterwards: modified where a closure did it, otherwise as it was
macro_rules! source_after {
    (owned, $($x:tt)*) => { Ok(()) };
    (muts, $v:ident, $f:ident, $calls:ident) => { source_after!(@ $v, $f, |id| $calls.iter().any(|r| r.0 == id) as u32) };
    (refs, $v:ident, $f:ident, $calls:ident) => { source_after!(@ $v, $f, |_| 0) };
    ($own:ident, $v:ident, $f:ident) => { source_after!(@ $v, $f, |_| 0) };
    (@ $v:ident, $f:ident, $touched:expr) => {{
        let got: Vec<M> = $v.iter().map(|t| Build::back(t)).collect();
        fn set(m: &M, t: &dyn Fn(u32) -> u32) -> M {
            M { touched: t(m.id), kids: m.kids.iter().map(|k| set(k, t)).collect(), ..m.clone() }
        }
        let want: Vec<M> = $f.iter().map(|m| set(m, &$touched)).collect();
        if got != want { Err(format!("the collection became {}, expected {}", forest_str(&got), forest_str(&want))) } else { Ok(()) }
    }};
}
macro_rules! map_like {
    ($own:ident, $touch:literal, $T:ty, $label:expr, $c:ident, $f:ident, $name:expr, $v:ident, $prep:expr, |$g:ident| $call:expr, $path:tt) => {
        for take in takes($f.len()) {
            $c.case(&|| format!("{}.{} taking {take} on {}", $label, $name, forest_str($f)), &mut |st| {
                let chain = if $path { [St::MapPath] } else { [St::Map] };
                let o = model_chain($f, &chain, true);
                let mut calls: Vec<Row> = vec![];
                #[allow(unused_mut)]
                let mut $v = $prep;
                let got = {
                    let $g = map_like!(@clo $path, $T, calls);
                    drain($call, take, |t| t.model())
                };
                let want = o.logs[0].clone();
                let o = if $touch { o } else { Out { forest: o.forest.iter().map(|m| m.clean()).collect(), ..o } };
                check(got, &calls, &o, &want, take, st)?;
                source_after!($own, $v, $f, calls)
            });
        }
    };
    (@clo true, $T:ty, $calls:ident) => { |p: &[usize], mut v: $T| { $calls.push((Obs::id(&v), p.to_vec())); Obs::touch(&mut v); v } };
    (@clo false, $T:ty, $calls:ident) => { |mut v: $T| { $calls.push((Obs::id(&v), vec![])); Obs::touch(&mut v); v } };
}
macro_rules! fold_like {
    ($own:ident, $kind:ident, $T:ty, $label:expr, $c:ident, $f:ident, $name:expr, $v:ident, $prep:expr, |$g:ident| $call:expr, $path:tt) => {
        for take in takes($f.len()) {
            $c.case(&|| format!("{}.{} taking {take} on {}", $label, $name, forest_str($f)), &mut |st| {
                let o = model_chain($f, &[], true);
                let mut calls: Vec<Row> = vec![];
                #[allow(unused_mut)]
                let mut $v = $prep;
                let got = {
                    let $g = fold_like!(@clo $kind, $path, $T, calls);
                    drain($call, take, |m| m)
                };
                let want = if $path { o.post.clone() } else { nopath(&o.post) };
                check(got, &calls, &o, &want, take, st)?;
                source_after!($own, $v, $f)
            });
        }
    };
    (@clo nary, true, $T:ty, $calls:ident) => { |k: Vec<M>, p: &[usize], v: $T| { $calls.push((Obs::id(&v), p.to_vec())); fold_nary(k, Obs::id(&v), 0) } };
    (@clo nary, false, $T:ty, $calls:ident) => { |k: Vec<M>, v: $T| { $calls.push((Obs::id(&v), vec![])); fold_nary(k, Obs::id(&v), 0) } };
    (@clo bin, true, $T:ty, $calls:ident) => { |k: [Option<M>; 2], p: &[usize], v: $T| { $calls.push((Obs::id(&v), p.to_vec())); fold_bin(k, Obs::id(&v), 0) } };
    (@clo bin, false, $T:ty, $calls:ident) => { |k: [Option<M>; 2], v: $T| { $calls.push((Obs::id(&v), vec![])); fold_bin(k, Obs::id(&v), 0) } };
}
macro_rules! prune_like {
    ($own:ident, $T:ty, $label:expr, $c:ident, $f:ident, $n:ident, $name:expr, $v:ident, $prep:expr, |$g:ident| $call:expr, $path:tt) => {
        for mask in sets_of($n) {
            let chain = if $path { [St::PrunePath(mask)] } else { [St::Prune(mask)] };
            let o = model_chain($f, &chain, true);
            for take in [0, 1, 2, $f.len() + 1] {
                if take == 2 && o.forest.len() <= 2 || $n > 10_000 && take < 2 { continue; }
                $c.case(&|| format!("{}.{}{} taking {take} on {}", $label, $name, ids(mask), forest_str($f)), &mut |st| {
                    let mut calls: Vec<Row> = vec![];
                    #[allow(unused_mut)]
                    let mut $v = $prep;
                    let got = {
                        let $g = prune_like!(@clo $path, $T, calls, mask);
                        drain($call, take, |t| t.model())
                    };
                    check(got, &calls, &o, &o.logs[0], take, st)?;
                    source_after!($own, $v, $f)
                });
            }
        }
    };
    (@clo true, $T:ty, $calls:ident, $mask:ident) => { |p: &[usize], v: &$T| { $calls.push((Obs::id(v), p.to_vec())); has($mask, Obs::id(v)) } };
    (@clo false, $T:ty, $calls:ident, $mask:ident) => { |v: &$T| { $calls.push((Obs::id(v), vec![])); has($mask, Obs::id(v)) } };
}
macro_rules! depth_like {
    ($own:ident, $label:expr, $c:ident, $f:ident, $name:expr, $v:ident, $prep:expr, |$d:ident| $call:expr) => {
        let h = $f.iter().map(|m| m.height()).max().unwrap_or(0);
        for $d in limits(h) {
            if $f.len() > 10_000 && ![0, 1, 1 << 16].contains(&$d) { continue; }
            let o = model_chain($f, &[St::Depth($d)], true);
            for take in takes($f.len()) {
                $c.case(&|| format!("{}.{}({}) taking {take} on {}", $label, $name, $d, forest_str($f)), &mut |st| {
                    #[allow(unused_mut)]
                    let mut $v = $prep;
                    let got = drain($call, take, |t| t.model());
                    let calls: Vec<Row> = got.iter().flat_map(|m| m.order(Order::Pre)).map(|i| (i, vec![])).collect();
                    let want: Vec<Row> = o.rows.iter().map(|r| (r.0, vec![])).collect();
                    check(got, &calls, &o, &want, take, st)?;
                    source_after!($own, $v, $f)
                });
            }
        }
    };
}

macro_rules! transform {
    (owned, $k:ident, $label:expr, $N:ty, [$g:expr], ($v:ident = $prep:expr) => $coll:expr, $c:ident, $f:ident, $n:ident, $w:ident) => {
        if $g {
            if W & MAP != 0 && $w & MAP != 0 { map_like!(owned, true, _, $label, $c, $f, "map_each", $v, $prep, |g| $coll.map_each(g), false); }
            if W & MAP != 0 && $w & MAP != 0 { map_like!(owned, true, _, $label, $c, $f, "map_path_each", $v, $prep, |g| $coll.map_path_each(g), true); }
            if W & FOLD != 0 && $w & FOLD != 0 { fold_like!(owned, $k, V, $label, $c, $f, "fold_each", $v, $prep, |g| $coll.fold_each(g), false); }
            if W & FOLD != 0 && $w & FOLD != 0 { fold_like!(owned, $k, V, $label, $c, $f, "fold_path_each", $v, $prep, |g| $coll.fold_path_each(g), true); }
            if W & PRUNE != 0 && $w & PRUNE != 0 { prune_like!(owned, V, $label, $c, $f, $n, "prune_each", $v, $prep, |g| $coll.prune_each(g), false); }
            if W & PRUNE != 0 && $w & PRUNE != 0 { prune_like!(owned, V, $label, $c, $f, $n, "prune_path_each", $v, $prep, |g| $coll.prune_path_each(g), true); }
            transform!(@depth $k, $label, $c, $f, $v, $prep, $coll, $w);
        }
    };
    (@depth nary, $label:expr, $c:ident, $f:ident, $v:ident, $prep:expr, $coll:expr, $w:ident) => {
        if W & DEPTH != 0 && $w & DEPTH != 0 { depth_like!(owned, $label, $c, $f, "prune_depth_each", $v, $prep, |d| $coll.prune_depth_each::<()>(d)); }
    };
    (@depth bin, $label:expr, $c:ident, $f:ident, $v:ident, $prep:expr, $coll:expr, $w:ident) => {
        if W & DEPTH != 0 && $w & DEPTH != 0 { depth_like!(owned, $label, $c, $f, "prune_depth_each", $v, $prep, |d| $coll.prune_depth_each(d)); }
    };
    (muts, $k:ident, $label:expr, $N:ty, [$g:expr], ($v:ident = $prep:expr) => $coll:expr, $c:ident, $f:ident, $n:ident, $w:ident) => {
        if $g {
            if W & MAP != 0 && $w & MAP != 0 { map_like!(muts, true, _, $label, $c, $f, "map_each_mut", $v, $prep, |g| $coll.map_each_mut(g), false); }
            if W & MAP != 0 && $w & MAP != 0 { map_like!(muts, true, _, $label, $c, $f, "map_path_each_mut", $v, $prep, |g| $coll.map_path_each_mut(g), true); }
            if W & FOLD != 0 && $w & FOLD != 0 { fold_like!(muts, $k, &mut V, $label, $c, $f, "fold_each_mut", $v, $prep, |g| $coll.fold_each_mut(g), false); }
            if W & FOLD != 0 && $w & FOLD != 0 { fold_like!(muts, $k, &mut V, $label, $c, $f, "fold_path_each_mut", $v, $prep, |g| $coll.fold_path_each_mut(g), true); }
            if W & PRUNE != 0 && $w & PRUNE != 0 { prune_like!(muts, &mut V, $label, $c, $f, $n, "prune_each_mut", $v, $prep, |g| $coll.prune_each_mut(g), false); }
            if W & PRUNE != 0 && $w & PRUNE != 0 { prune_like!(muts, &mut V, $label, $c, $f, $n, "prune_path_each_mut", $v, $prep, |g| $coll.prune_path_each_mut(g), true); }
            if W & DEPTH != 0 && $w & DEPTH != 0 { depth_like!(muts, $label, $c, $f, "prune_depth_each_mut", $v, $prep, |d| $coll.prune_depth_each_mut(d)); }
        }
    };
    (refs, $k:ident, $label:expr, $N:ty, [$g:expr], ($v:ident = $prep:expr) => $coll:expr, $c:ident, $f:ident, $n:ident, $w:ident) => {
        if $g {
            if W & MAP != 0 && $w & MAP != 0 { map_like!(refs, false, _, $label, $c, $f, "map_each_ref", $v, $prep, |g| $coll.map_each_ref(g), false); }
            if W & MAP != 0 && $w & MAP != 0 { map_like!(refs, false, _, $label, $c, $f, "map_path_each_ref", $v, $prep, |g| $coll.map_path_each_ref(g), true); }
            if W & FOLD != 0 && $w & FOLD != 0 { fold_like!(refs, $k, &V, $label, $c, $f, "fold_each_ref", $v, $prep, |g| $coll.fold_each_ref(g), false); }
            if W & FOLD != 0 && $w & FOLD != 0 { fold_like!(refs, $k, &V, $label, $c, $f, "fold_path_each_ref", $v, $prep, |g| $coll.fold_path_each_ref(g), true); }
            if W & PRUNE != 0 && $w & PRUNE != 0 { prune_like!(refs, &V, $label, $c, $f, $n, "prune_each_ref", $v, $prep, |g| $coll.prune_each_ref(g), false); }
            if W & PRUNE != 0 && $w & PRUNE != 0 { prune_like!(refs, &V, $label, $c, $f, $n, "prune_path_each_ref", $v, $prep, |g| $coll.prune_path_each_ref(g), true); }
            if W & DEPTH != 0 && $w & DEPTH != 0 { depth_like!(refs, $label, $c, $f, "prune_depth_each_ref", $v, $prep, |d| $coll.prune_depth_each_ref(d)); }
        }
    };
}

/// which transforms to check: of those compiled in, `W`, the ones in `w`
pub const MAP: u8 = 1;
pub const FOLD: u8 = 2;
pub const PRUNE: u8 = 4;
pub const DEPTH: u8 = 8;
/// every parameter of the `*_each` transforms on the forest `f` of `n` nodes, in every container
pub fn nary_transforms<const W: u8>(c: &mut Ctx, f: &[M], n: usize, w: u8) {
    nary_colls!(transform, f, (c, f, n, w));
}
pub fn binary_transforms<const W: u8>(c: &mut Ctx, f: &[M], n: usize, w: u8) {
    bin_colls!(transform, f, (c, f, n, w));
}
/// families of larger forests
pub fn family_transforms<const W: u8>(c: &mut Ctx, fam: usize, tree_fam: usize, w: u8) {
    let size = |f: &[M]| f.iter().map(|m| m.size()).sum();
    for f in &nary_forest_families(fam, tree_fam) {
        if c.mine() {
            nary_transforms::<W>(c, f, size(f), w);
        }
    }
    for f in &binary_forest_families(fam, tree_fam) {
        if c.mine() {
            binary_transforms::<W>(c, f, size(f), w);
        }
    }
}
/// all forests with at most `n` nodes
pub fn all_transforms<const W: u8>(c: &mut Ctx, n: usize, w: u8) {
    for s in 0..=n {
        for f in &nary_forests(s) {
            if c.mine() {
                nary_transforms::<W>(c, f, s, w);
            }
        }
        for f in &binary_forests(s) {
            if c.mine() {
                binary_transforms::<W>(c, f, s, w);
            }
        }
    }
}
