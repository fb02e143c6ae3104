//! Tables of every single-tree traversal, by node type and ownership. Each row is handed to a
//! callback macro as  `cb!{ own, label, order, NodeType, (t) => iterator expression, extra.. }`.
#[macro_export]
macro_rules! nary_sources_for {
    ($cb:ident, $N:ty, $nm:literal, ($($x:tt)*)) => {
        $cb!{ owned, concat!($nm, ".bfs()"), $crate::Order::Bfs, $N, (t) => t.bfs(), $($x)* }
        $cb!{ owned, concat!($nm, ".dfs_preorder()"), $crate::Order::Pre, $N, (t) => t.dfs_preorder(), $($x)* }
        $cb!{ owned, concat!($nm, ".dfs_postorder()"), $crate::Order::Post, $N, (t) => t.dfs_postorder(), $($x)* }
        $cb!{ muts, concat!($nm, ".bfs_iter_mut()"), $crate::Order::Bfs, $N, (t) => t.bfs_iter_mut(), $($x)* }
        $cb!{ muts, concat!($nm, ".dfs_preorder_iter_mut()"), $crate::Order::Pre, $N, (t) => t.dfs_preorder_iter_mut(), $($x)* }
        $cb!{ muts, concat!($nm, ".dfs_postorder_iter_mut()"), $crate::Order::Post, $N, (t) => t.dfs_postorder_iter_mut(), $($x)* }
        $cb!{ refs, concat!($nm, ".bfs_iter()"), $crate::Order::Bfs, $N, (t) => t.bfs_iter(), $($x)* }
        $cb!{ refs, concat!($nm, ".dfs_preorder_iter()"), $crate::Order::Pre, $N, (t) => t.dfs_preorder_iter(), $($x)* }
        $cb!{ refs, concat!($nm, ".dfs_postorder_iter()"), $crate::Order::Post, $N, (t) => t.dfs_postorder_iter(), $($x)* }
    };
}
#[macro_export]
macro_rules! bin_sources_for {
    ($cb:ident, $N:ty, $nm:literal, ($($x:tt)*)) => {
        $crate::nary_sources_for!($cb, $N, $nm, ($($x)*));
        $cb!{ owned, concat!($nm, ".dfs_inorder()"), $crate::Order::In, $N, (t) => t.dfs_inorder(), $($x)* }
        $cb!{ muts, concat!($nm, ".dfs_inorder_iter_mut()"), $crate::Order::In, $N, (t) => t.dfs_inorder_iter_mut(), $($x)* }
        $cb!{ refs, concat!($nm, ".dfs_inorder_iter()"), $crate::Order::In, $N, (t) => t.dfs_inorder_iter(), $($x)* }
    };
}
#[macro_export]
macro_rules! nary_sources {
    ($cb:ident, ($($x:tt)*)) => {
        $crate::nary_sources_for!($cb, Tree<$crate::V>, "Tree", ($($x)*));
        $crate::nary_sources_for!($cb, $crate::LNode, "LNode", ($($x)*));
        $crate::nary_sources_for!($cb, $crate::INode, "INode", ($($x)*));
    };
}
#[macro_export]
macro_rules! bin_sources {
    ($cb:ident, ($($x:tt)*)) => {
        $crate::bin_sources_for!($cb, BinaryTree<$crate::V>, "BinaryTree", ($($x)*));
        $crate::bin_sources_for!($cb, $crate::CBin, "CBin", ($($x)*));
    };
}

/// Tables of the collections the `*_each` APIs are implemented for. Each row is handed to a callback
/// macro as  `cb!{ own, kind, label, NodeType, [applicable?], (v = build) => collection, extra.. }`.
#[macro_export]
macro_rules! colls_for {
    ($cb:ident, $kind:ident, $f:ident, $N:ty, $nm:literal, $arr_ref:ident, ($($x:tt)*)) => {
        $cb!{ owned, $kind, concat!("Vec<", $nm, ">"), $N, [true], (v = $crate::build_vec::<$N>($f)) => v, $($x)* }
        $cb!{ owned, $kind, concat!("Odd<", $nm, ">"), $N, [true], (v = $crate::Odd($crate::build_vec::<$N>($f))) => v, $($x)* }
        $cb!{ muts, $kind, concat!("&mut Vec<", $nm, ">"), $N, [true], (v = $crate::build_vec::<$N>($f)) => (&mut v), $($x)* }
        $cb!{ muts, $kind, concat!("IterMut<", $nm, ">"), $N, [true], (v = $crate::build_vec::<$N>($f)) => v.iter_mut(), $($x)* }
        $cb!{ refs, $kind, concat!("&Vec<", $nm, ">"), $N, [true], (v = $crate::build_vec::<$N>($f)) => (&v), $($x)* }
        $cb!{ refs, $kind, concat!("Iter<", $nm, ">"), $N, [true], (v = $crate::build_vec::<$N>($f)) => v.iter(), $($x)* }
        $crate::colls_arr!($cb, $kind, $f, $N, $nm, $arr_ref, 0, ($($x)*));
        $crate::colls_arr!($cb, $kind, $f, $N, $nm, $arr_ref, 1, ($($x)*));
        $crate::colls_arr!($cb, $kind, $f, $N, $nm, $arr_ref, 2, ($($x)*));
        $crate::colls_arr!($cb, $kind, $f, $N, $nm, $arr_ref, 3, ($($x)*));
    };
}
#[macro_export]
macro_rules! colls_arr {
    ($cb:ident, $kind:ident, $f:ident, $N:ty, $nm:literal, $arr_ref:ident, $k:literal, ($($x:tt)*)) => {
        $cb!{ owned, $kind, concat!("[", $nm, "; ", $k, "]"), $N, [$f.len() == $k], (v = $crate::build_arr::<$N, $k>($f)) => v, $($x)* }
        $cb!{ muts, $kind, concat!("&mut [", $nm, "; ", $k, "]"), $N, [$f.len() == $k], (v = $crate::build_arr::<$N, $k>($f)) => (&mut v), $($x)* }
        $crate::colls_arr!(@$arr_ref $cb, $kind, $f, $N, $nm, $k, ($($x)*));
    };
    // shared slices are collections of n-ary trees, shared arrays of binary trees
    (@slice $cb:ident, $kind:ident, $f:ident, $N:ty, $nm:literal, $k:literal, ($($x:tt)*)) => {
        $cb!{ refs, $kind, concat!("&[", $nm, "] of ", $k), $N, [$f.len() == $k], (v = $crate::build_arr::<$N, $k>($f)) => (&v[..]), $($x)* }
    };
    (@array $cb:ident, $kind:ident, $f:ident, $N:ty, $nm:literal, $k:literal, ($($x:tt)*)) => {
        $cb!{ refs, $kind, concat!("&[", $nm, "; ", $k, "]"), $N, [$f.len() == $k], (v = $crate::build_arr::<$N, $k>($f)) => (&v), $($x)* }
    };
}
#[macro_export]
macro_rules! nary_colls {
    ($cb:ident, $f:ident, ($($x:tt)*)) => {
        $crate::colls_for!($cb, nary, $f, Tree<$crate::V>, "Tree", slice, ($($x)*));
        $crate::colls_for!($cb, nary, $f, $crate::INode, "INode", slice, ($($x)*));
        $cb!{ owned, nary, "Trees", Tree<$crate::V>, [true], (v = $crate::build_vec::<Tree<$crate::V>>($f)) => v.into_pipeline().trees(), $($x)* }
    };
}
#[macro_export]
macro_rules! bin_colls {
    ($cb:ident, $f:ident, ($($x:tt)*)) => {
        $crate::colls_for!($cb, bin, $f, BinaryTree<$crate::V>, "BinaryTree", array, ($($x)*));
        $crate::colls_for!($cb, bin, $f, $crate::CBin, "CBin", array, ($($x)*));
    };
}
