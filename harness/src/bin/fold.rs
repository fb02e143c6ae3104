//! fold / fold_path: post-order, children's results in order and in their slots, exact paths.
use mc::tree_iterators_rs::prelude::*;
use mc::*;
#[path = "../each_ops.rs"]
mod each_ops;
use each_ops::*;

fn check(got: M, calls: &[Row], m: &M, paths: bool, touched: u32, st: &mut Stats) -> Result<(), String> {
    let infos = m.infos();
    let want: Vec<Row> = m
        .order(Order::Post)
        .into_iter()
        .map(|id| (id, if paths { infos[id as usize].path.clone() } else { vec![] }))
        .collect();
    st.steps(calls.len());
    st.sees(calls.iter().map(|r| r.0));
    st.sees(calls.iter().flat_map(|r| r.1.iter().map(|x| *x as u32)));
    if calls != want {
        return Err(format!("closure was called with {}, expected {}", rows_str(calls), rows_str(&want)));
    }
    let want = t(m, touched);
    if got != want {
        return Err(format!("folded to {got}, expected {want}"));
    }
    Ok(())
}
fn t(m: &M, n: u32) -> M {
    M { touched: n, kids: m.kids.iter().map(|k| t(k, n)).collect(), ..m.clone() }
}
fn source(got: M, m: &M, touched: u32) -> Result<(), String> {
    let want = t(m, touched);
    if got != want {
        return Err(format!("source tree became {got}, expected {want}"));
    }
    Ok(())
}

macro_rules! all {
    ($c:ident, $m:ident, $N:ty, $nm:literal, $K:ty, $fold:path) => {
        all!(@ $c, $m, $N, $nm, $K, $fold, "fold", (t, f) => t.fold(f), owned, 1, "fold_path", t.fold_path(f));
        all!(@ $c, $m, $N, $nm, $K, $fold, "fold_mut", (t, f) => t.fold_mut(f), muts, 1, "fold_path_mut", t.fold_path_mut(f));
        all!(@ $c, $m, $N, $nm, $K, $fold, "fold_ref", (t, f) => t.fold_ref(f), refs, 0, "fold_path_ref", t.fold_path_ref(f));
    };
    (@ $c:ident, $m:ident, $N:ty, $nm:literal, $K:ty, $fold:path, $l1:literal, ($t:ident, $f:ident) => $e1:expr, $own:ident, $tc:literal, $l2:literal, $e2:expr) => {
        $c.case(&|| format!("{}.{} on {}", $nm, $l1, $m), &mut |st| {
            let mut calls: Vec<Row> = vec![];
            #[allow(unused_mut)]
            let mut $t = <$N>::build($m);
            let $f = |k: $K, mut v| { calls.push((Obs::id(&v), vec![])); Obs::touch(&mut v); $fold(k, Obs::id(&v), Obs::touched(&v)) };
            let r = $e1;
            check(r, &calls, $m, false, $tc, st)?;
            all!(@src $own, $t, $m)
        });
        $c.case(&|| format!("{}.{} on {}", $nm, $l2, $m), &mut |st| {
            let mut calls: Vec<Row> = vec![];
            #[allow(unused_mut)]
            let mut $t = <$N>::build($m);
            let $f = |k: $K, p: &[usize], mut v| { calls.push((Obs::id(&v), p.to_vec())); Obs::touch(&mut v); $fold(k, Obs::id(&v), Obs::touched(&v)) };
            let r = $e2;
            check(r, &calls, $m, true, $tc, st)?;
            all!(@src $own, $t, $m)
        });
    };
    (@src owned, $t:ident, $m:ident) => { Ok(()) };
    (@src muts, $t:ident, $m:ident) => { source($t.back(), $m, 1) };
    (@src refs, $t:ident, $m:ident) => { source($t.back(), $m, 0) };
}

pub fn run(c: &mut Ctx) {
    let fam = c.pick(300, 300, 0);
    let n = c.pick(11, 13, 5);
    c.bound(format!("every n-ary tree shape with <= {n} nodes, {} x 3 node types x 6 methods", fam_str(fam)));
    for ref m in nary_all(n, fam) {
        if c.mine() {
            all!(c, m, Tree<V>, "Tree", Vec<M>, fold_nary);
            all!(c, m, LNode, "LNode", Vec<M>, fold_nary);
            all!(c, m, INode, "INode", Vec<M>, fold_nary);
        }
    }
    let n = c.pick(10, 12, 5);
    c.bound(format!("every binary tree shape with <= {n} nodes, {} x 2 node types x 6 methods", fam_str(fam)));
    for ref m in binary_all(n, fam) {
        if c.mine() {
            all!(c, m, BinaryTree<V>, "BinaryTree", [Option<M>; 2], fold_bin);
            all!(c, m, CBin, "CBin", [Option<M>; 2], fold_bin);
        }
    }
    let n = c.pick(5, 6, 2);
    c.bound(format!("fold_each and fold_path_each on every collection of n-ary or binary trees with <= {n} nodes in total x every container"));
    all_transforms::<FOLD>(c, n, FOLD);
    let (many, trees) = c.pick((66, 40), (130, 66), (0, 0));
    c.bound(format!("the same on families of larger collections: up to {many} small trees, and 15 families of trees with up to {trees} nodes, alone, in pairs, between small ones and forty of them"));
    family_transforms::<FOLD>(c, many, trees, FOLD);
}

#[allow(dead_code)]
fn main() {
    main_for("C08", &[], run);
}
