//! attach_context()/attach_ancestors() panic exactly when an element was already yielded, and the
//! refusal leaves nothing half-destroyed (every value is still dropped exactly once).
use mc::tree_iterators_rs::prelude::*;
use mc::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// `f` attaches after `k` elements were yielded
fn expect(k: usize, f: impl FnOnce() -> usize, n: usize) -> Result<(), String> {
    match (k > 0, catch_unwind(AssertUnwindSafe(f))) {
        (false, Ok(got)) if got == n => Ok(()),
        (false, Ok(got)) => Err(format!("attached to a fresh iterator, yielded {got} of {n} elements")),
        (false, Err(_)) => Err("panicked although no element was yielded".into()),
        (true, Ok(_)) => Err(format!("did not panic although {k} element(s) were already yielded")),
        (true, Err(_)) => Ok(()),
    }
}
macro_rules! count {
    ($it:expr) => {{
        let mut it = $it;
        let mut n = 0;
        while it.next().is_some() {
            n += 1;
        }
        n
    }};
}

macro_rules! cb {
    ($own:ident, $label:expr, $order:expr, $N:ty, ($t:ident) => $it:expr, $c:ident, $m:ident) => {
        for k in if $m.size() <= $c.pick(140, 300, 12) { (0..=$m.size() + 1).collect() } else { cuts($m.size()) } {
            $c.case(&|| format!("{}.attach_context() after {k} on {}", $label, $m), &mut |st| {
                #[allow(unused_mut)]
                let mut $t = <$N>::build($m);
                let mut it = $it;
                for v in it.by_ref().take(k) {
                    st.step();
                    st.see(Obs::id(&v) as u64);
                }
                st.step();
                expect(k, || count!(it.attach_context()), $m.size())
            });
            $c.case(&|| format!("{}.attach_ancestors() after {k} on {}", $label, $m), &mut |st| {
                #[allow(unused_mut)]
                let mut $t = <$N>::build($m);
                let mut it = $it;
                for v in it.by_ref().take(k) {
                    st.step();
                    st.see(Obs::id(&v) as u64);
                }
                st.step();
                expect(k, || count!(it.attach_ancestors()), $m.size())
            });
        }
    };
}

macro_rules! meth {
    ($label:expr, $guard:expr, ($v:ident = $prep:expr) => $coll:expr, $c:ident, $f:ident, $n:ident, $m:ident) => {
        if $guard {
            // n + 1: drained, the end was seen
            for k in 0..=$n + 1 {
                $c.case(&|| format!("{}.{}().attach_context() after {k} on {}", $label, stringify!($m), forest_str($f)), &mut |st| {
                    #[allow(unused_mut)]
                    let mut $v = $prep;
                    let mut it = $coll.$m();
                    for v in it.by_ref().take(k) {
                        st.step();
                        st.see(Obs::id(&v) as u64);
                    }
                    st.step();
                    expect(k.min($n), || count!(it.attach_context()), $n)
                });
            }
        }
    };
}
macro_rules! coll {
    (owned, $k:ident, $label:expr, $N:ty, [$g:expr], ($v:ident = $prep:expr) => $coll:expr, $c:ident, $f:ident, $n:ident) => {
        coll!(@go $k, $label, $g, ($v = $prep) => $coll, $c, $f, $n, bfs_each, dfs_preorder_each, dfs_postorder_each, dfs_inorder_each);
    };
    (muts, $k:ident, $label:expr, $N:ty, [$g:expr], ($v:ident = $prep:expr) => $coll:expr, $c:ident, $f:ident, $n:ident) => {
        coll!(@go $k, $label, $g, ($v = $prep) => $coll, $c, $f, $n, bfs_each_iter_mut, dfs_preorder_each_iter_mut, dfs_postorder_each_iter_mut, dfs_inorder_each_iter_mut);
    };
    (refs, $k:ident, $label:expr, $N:ty, [$g:expr], ($v:ident = $prep:expr) => $coll:expr, $c:ident, $f:ident, $n:ident) => {
        coll!(@go $k, $label, $g, ($v = $prep) => $coll, $c, $f, $n, bfs_each_iter, dfs_preorder_each_iter, dfs_postorder_each_iter, dfs_inorder_each_iter);
    };
    (@go $k:ident, $label:expr, $g:expr, ($v:ident = $prep:expr) => $coll:expr, $c:ident, $f:ident, $n:ident, $a:ident, $b:ident, $d:ident, $e:ident) => {
        meth!($label, $g, ($v = $prep) => $coll, $c, $f, $n, $a);
        meth!($label, $g, ($v = $prep) => $coll, $c, $f, $n, $b);
        meth!($label, $g, ($v = $prep) => $coll, $c, $f, $n, $d);
        coll!(@$k $label, $g, ($v = $prep) => $coll, $c, $f, $n, $e);
    };
    (@nary $($x:tt)*) => {};
    (@bin $label:expr, $g:expr, ($v:ident = $prep:expr) => $coll:expr, $c:ident, $f:ident, $n:ident, $e:ident) => {
        meth!($label, $g, ($v = $prep) => $coll, $c, $f, $n, $e);
    };
}
fn nary_c(c: &mut Ctx, f: &[M], n: usize) {
    nary_colls!(coll, f, (c, f, n));
}
fn binary_c(c: &mut Ctx, f: &[M], n: usize) {
    bin_colls!(coll, f, (c, f, n));
}

pub fn run(c: &mut Ctx) {
    c.check_leaks = true;
    let n = c.pick(9, 11, 3);
    c.bound(format!("every n-ary and binary tree shape with <= {n} nodes x every traversal x attach after every number of elements (0..=size+1)"));
    for s in 1..=n {
        for m in &nary_shapes(s) {
            if c.mine() {
                nary_sources!(cb, (c, m));
            }
        }
        for m in &binary_shapes(s) {
            if c.mine() {
                bin_sources!(cb, (c, m));
            }
        }
    }
    let sizes = c.pick(vec![12, 17, 33, 65, 130, 258], family_sizes(300), vec![]);
    c.bound(format!("the same on 15 families of larger trees of the sizes {sizes:?}"));
    for m in &nary_families_of(&sizes) {
        if c.mine() {
            nary_sources!(cb, (c, m));
        }
    }
    for m in &binary_families_of(&sizes) {
        if c.mine() {
            bin_sources!(cb, (c, m));
        }
    }
    let sizes = c.pick(vec![17, 65], vec![12, 17, 33, 65, 130, 258], vec![]);
    c.bound(format!("collections of two trees of the 15 families of the sizes {sizes:?} x every container x every traversal x attach after every number of elements"));
    for m in nary_families_of(&sizes) {
        if c.mine() {
            let f = number_forest(vec![m.clone(), m]);
            nary_c(c, &f, f.iter().map(|m| m.size()).sum());
        }
    }
    for m in binary_families_of(&sizes) {
        if c.mine() {
            let f = number_forest(vec![m.clone(), m]);
            binary_c(c, &f, f.iter().map(|m| m.size()).sum());
        }
    }
    let n = c.pick(7, 9, 2);
    c.bound(format!("every collection with <= {n} nodes in total x every container x every traversal x attach after every number of elements"));
    for s in 0..=n {
        for f in &nary_forests(s) {
            if c.mine() {
                nary_c(c, f, s);
            }
        }
        for f in &binary_forests(s) {
            if c.mine() {
                binary_c(c, f, s);
            }
        }
    }
}

#[allow(dead_code)]
fn main() {
    main_for("C16", &[], run);
}
