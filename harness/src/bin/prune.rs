//! prune / prune_path: every set of nodes to prune on every small tree.
use mc::tree_iterators_rs::prelude::*;
use mc::*;
#[path = "../each_ops.rs"]
mod each_ops;
use each_ops::*;

fn check(got: Option<M>, calls: &[Row], o: &Out, st: &mut Stats) -> Result<(), String> {
    st.steps(calls.len());
    st.sees(calls.iter().map(|r| r.0));
    st.sees(o.rows.iter().map(|r| r.0));
    if calls != o.logs[0] {
        return Err(format!("closure was called with {}, expected {}", rows_str(calls), rows_str(&o.logs[0])));
    }
    let got: Vec<M> = got.into_iter().collect();
    if got != o.forest {
        return Err(format!("result {}, expected {}", forest_str(&got), forest_str(&o.forest)));
    }
    Ok(())
}

/// the last two are runs of nodes pruned one after another, in combs for instance
fn sets(size: usize) -> Vec<u32> {
    let size = size as u32;
    big_sets().into_iter().chain(if size < 10_000 { vec![from(size / 2), from(size / 3)] } else { vec![] }).collect()
}

macro_rules! all {
    ($c:ident, $m:ident, $N:ty, $nm:literal) => {
        all!(@ $c, $m, $N, $nm, "prune", V, (t, f) => t.prune(f), owned, "prune_path", t.prune_path(f));
        all!(@ $c, $m, $N, $nm, "prune_mut", &mut V, (t, f) => t.prune_mut(f), muts, "prune_path_mut", t.prune_path_mut(f));
        all!(@ $c, $m, $N, $nm, "prune_ref", &V, (t, f) => t.prune_ref(f), muts, "prune_path_ref", t.prune_path_ref(f));
    };
    (@ $c:ident, $m:ident, $N:ty, $nm:literal, $l1:literal, $T:ty, ($t:ident, $f:ident) => $e1:expr, $own:ident, $l2:literal, $e2:expr) => {
        for mask in if $m.size() <= 11 { (0..1u32 << $m.size()).collect() } else { sets($m.size()) } {
            $c.case(&|| format!("{}.{}{} on {}", $nm, $l1, ids(mask), $m), &mut |st| {
                let mut calls: Vec<Row> = vec![];
                #[allow(unused_mut)]
                let mut $t = <$N>::build($m);
                let $f = |v: &$T| { calls.push((Obs::id(v), vec![])); has(mask, Obs::id(v)) };
                let r = $e1.map(|t| t.model());
                check(r, &calls, &model_chain(std::slice::from_ref($m), &[St::Prune(mask)], false), st)?;
                all!(@src $own, $t, $m)
            });
            $c.case(&|| format!("{}.{}{} on {}", $nm, $l2, ids(mask), $m), &mut |st| {
                let mut calls: Vec<Row> = vec![];
                #[allow(unused_mut)]
                let mut $t = <$N>::build($m);
                let $f = |p: &[usize], v: &$T| { calls.push((Obs::id(v), p.to_vec())); has(mask, Obs::id(v)) };
                let r = $e2.map(|t| t.model());
                check(r, &calls, &model_chain(std::slice::from_ref($m), &[St::PrunePath(mask)], false), st)?;
                all!(@src $own, $t, $m)
            });
        }
    };
    (@src owned, $t:ident, $m:ident) => { Ok(()) };
    (@src muts, $t:ident, $m:ident) => {
        if $t.back() != *$m { Err(format!("source tree became {}", $t.back())) } else { Ok(()) }
    };
}

pub fn run(c: &mut Ctx) {
    let n = c.pick(8, 10, 3);
    c.bound(format!("every n-ary tree shape with <= {n} nodes x every set of pruned nodes x 3 node types x 6 methods"));
    for s in 1..=n {
        for m in &nary_shapes(s) {
            if c.mine() {
                all!(c, m, Tree<V>, "Tree");
                all!(c, m, LNode, "LNode");
                all!(c, m, INode, "INode");
            }
        }
    }
    let n = c.pick(8, 9, 3);
    c.bound(format!("every binary tree shape with <= {n} nodes x every set of pruned nodes x 2 node types x 6 methods"));
    for s in 1..=n {
        for m in &binary_shapes(s) {
            if c.mine() {
                all!(c, m, BinaryTree<V>, "BinaryTree");
                all!(c, m, CBin, "CBin");
            }
        }
    }
    let fam = c.pick(130, 300, 0);
    c.bound(format!("every method with periodic prune sets on {}", fam_str(300).trim_start_matches("plus ")));
    for m in nary_families(fam).iter().chain(&nary_giants()).filter(|_| fam > 0) {
        if c.mine() {
            all!(c, m, Tree<V>, "Tree");
            all!(c, m, LNode, "LNode");
            all!(c, m, INode, "INode");
        }
    }
    for m in binary_families(fam).iter().chain(&binary_families_of(if fam > 0 { &[700] } else { &[] })) {
        if c.mine() {
            all!(c, m, BinaryTree<V>, "BinaryTree");
            all!(c, m, CBin, "CBin");
        }
    }
    let n = c.pick(5, 6, 2);
    c.bound(format!("prune_each and prune_path_each, every prune set on every collection of n-ary or binary trees with <= {n} nodes in total x every container"));
    all_transforms::<PRUNE>(c, n, PRUNE);
    let (many, trees) = c.pick((40, 20), (130, 66), (0, 0));
    c.bound(format!("the same on families of larger collections: up to {many} small trees, and 15 families of trees with up to {trees} nodes, alone, in pairs, between small ones and forty of them"));
    family_transforms::<PRUNE>(c, many, trees, PRUNE);
}

#[allow(dead_code)]
fn main() {
    main_for("C09", &[], run);
}
