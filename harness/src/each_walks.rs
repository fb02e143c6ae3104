//! Collections of trees: the `*_each` traversals, for every container.
#![allow(unused_imports, unused_macros, dead_code)] // each check uses a part of it
use crate::*;
use mc::tree_iterators_rs::prelude::*;

// ---- traversals, plain and with attach_context -------------------------------------------------

macro_rules! source_ok {
    (owned, $v:ident, $f:ident) => { Ok(()) };
    (muts, $v:ident, $f:ident) => { source_ok!(@ $v, $f, 1) };
    (refs, $v:ident, $f:ident) => { source_ok!(@ $v, $f, 0) };
    (@ $v:ident, $f:ident, $t:literal) => {{
        let got: Vec<M> = $v.iter().map(|t| Build::back(t)).collect();
        fn set(m: &M) -> M { M { slot: m.slot, touched: $t, kids: m.kids.iter().map(set).collect(), ..m.clone() } }
        let want: Vec<M> = $f.iter().map(set).collect();
        if got != want { Err(format!("the collection became {}, expected {}", forest_str(&got), forest_str(&want))) } else { Ok(()) }
    }};
}

macro_rules! meth {
    ($own:ident, $label:expr, $N:ty, $guard:expr, ($v:ident = $prep:expr) => $coll:expr, $c:ident, $f:ident, $order:expr, $m:ident) => {
        if PLAIN && $guard {
            $c.case(&|| format!("{}.{}() on {}", $label, stringify!($m), forest_str($f)), &mut |st| {
                let want: Vec<u32> = $f.iter().flat_map(|t| t.order($order)).collect();
                #[allow(unused_mut)]
                let mut $v = $prep;
                let mut got = vec![];
                for mut x in $coll.$m() {
                    got.push(Obs::id(&x));
                    Obs::touch(&mut x);
                    st.step();
                    if got.len() > want.len() {
                        break;
                    }
                }
                st.sees(got.iter().copied());
                if got != want {
                    return Err(format!("yielded {got:?}, expected {want:?}"));
                }
                source_ok!($own, $v, $f)
            });
        }
        if CONTEXT && $guard {
            $c.case(&|| format!("{}.{}().attach_context() on {}", $label, stringify!($m), forest_str($f)), &mut |st| {
                let w = want_forest($f, $order);
                #[allow(unused_mut)]
                let mut $v = $prep;
                let mut it = $coll.$m().attach_context();
                let i = walk_ctx!($own, $order, it, w, st);
                if i != w.0.len() {
                    return Err(format!("ended after {i} of {} nodes", w.0.len()));
                }
                drop(it);
                source_ok!($own, $v, $f)
            });
        }
    };
}
macro_rules! traverse {
    (owned, $k:ident, $label:expr, $N:ty, [$g:expr], ($v:ident = $prep:expr) => $coll:expr, $c:ident, $f:ident) => {
        meth!(owned, $label, $N, $g, ($v = $prep) => $coll, $c, $f, Order::Bfs, bfs_each);
        meth!(owned, $label, $N, $g, ($v = $prep) => $coll, $c, $f, Order::Pre, dfs_preorder_each);
        meth!(owned, $label, $N, $g, ($v = $prep) => $coll, $c, $f, Order::Post, dfs_postorder_each);
        traverse!(@$k owned, $label, $N, $g, ($v = $prep) => $coll, $c, $f, dfs_inorder_each);
    };
    (muts, $k:ident, $label:expr, $N:ty, [$g:expr], ($v:ident = $prep:expr) => $coll:expr, $c:ident, $f:ident) => {
        meth!(muts, $label, $N, $g, ($v = $prep) => $coll, $c, $f, Order::Bfs, bfs_each_iter_mut);
        meth!(muts, $label, $N, $g, ($v = $prep) => $coll, $c, $f, Order::Pre, dfs_preorder_each_iter_mut);
        meth!(muts, $label, $N, $g, ($v = $prep) => $coll, $c, $f, Order::Post, dfs_postorder_each_iter_mut);
        traverse!(@$k muts, $label, $N, $g, ($v = $prep) => $coll, $c, $f, dfs_inorder_each_iter_mut);
    };
    (refs, $k:ident, $label:expr, $N:ty, [$g:expr], ($v:ident = $prep:expr) => $coll:expr, $c:ident, $f:ident) => {
        meth!(refs, $label, $N, $g, ($v = $prep) => $coll, $c, $f, Order::Bfs, bfs_each_iter);
        meth!(refs, $label, $N, $g, ($v = $prep) => $coll, $c, $f, Order::Pre, dfs_preorder_each_iter);
        meth!(refs, $label, $N, $g, ($v = $prep) => $coll, $c, $f, Order::Post, dfs_postorder_each_iter);
        traverse!(@$k refs, $label, $N, $g, ($v = $prep) => $coll, $c, $f, dfs_inorder_each_iter);
    };
    (@nary $($r:tt)*) => {};
    (@bin $own:ident, $label:expr, $N:ty, $g:expr, ($v:ident = $prep:expr) => $coll:expr, $c:ident, $f:ident, $m:ident) => {
        meth!($own, $label, $N, $g, ($v = $prep) => $coll, $c, $f, Order::In, $m);
    };
}

/// every `*_each` traversal of the forest in every container
pub fn nary_traversals<const PLAIN: bool, const CONTEXT: bool>(c: &mut Ctx, f: &[M]) {
    nary_colls!(traverse, f, (c, f));
}
pub fn binary_traversals<const PLAIN: bool, const CONTEXT: bool>(c: &mut Ctx, f: &[M]) {
    bin_colls!(traverse, f, (c, f));
}
/// all forests with at most `n` nodes
pub fn all_traversals<const PLAIN: bool, const CONTEXT: bool>(c: &mut Ctx, n: usize) {
    for s in 0..=n {
        for f in &nary_forests(s) {
            if c.mine() {
                nary_traversals::<PLAIN, CONTEXT>(c, f);
            }
        }
        for f in &binary_forests(s) {
            if c.mine() {
                binary_traversals::<PLAIN, CONTEXT>(c, f);
            }
        }
    }
}
/// families of larger forests
pub fn family_traversals<const PLAIN: bool, const CONTEXT: bool>(c: &mut Ctx, fam: usize, tree_fam: usize) {
    for f in &nary_forest_families(fam, tree_fam) {
        if c.mine() {
            nary_traversals::<PLAIN, CONTEXT>(c, f);
        }
    }
    for f in &binary_forest_families(fam, tree_fam) {
        if c.mine() {
            binary_traversals::<PLAIN, CONTEXT>(c, f);
        }
    }
}
