//! map / map_path: shape kept, every value mapped exactly once in preorder, path argument exact.
use mc::tree_iterators_rs::prelude::*;
use mc::*;
#[path = "../each_ops.rs"]
mod each_ops;
use each_ops::*;

fn mapped(m: &M) -> M {
    M { id: m.id + 100, touched: 0, kids: m.kids.iter().map(mapped).collect(), ..m.clone() }
}
fn check(got: M, calls: &[Row], m: &M, paths: bool, st: &mut Stats) -> Result<(), String> {
    let infos = m.infos();
    let want: Vec<Row> = infos.into_iter().map(|i| (i.id, if paths { i.path } else { vec![] })).collect();
    st.steps(calls.len());
    st.sees(calls.iter().map(|r| r.0));
    st.sees(calls.iter().flat_map(|r| r.1.iter().map(|x| *x as u32)));
    if calls != want {
        return Err(format!("closure was called with {}, expected {}", rows_str(calls), rows_str(&want)));
    }
    if got != mapped(m) {
        return Err(format!("result {got}, expected {}", mapped(m)));
    }
    Ok(())
}
fn source(got: M, m: &M, touched: u32) -> Result<(), String> {
    fn t(m: &M, n: u32) -> M {
        M { touched: n, kids: m.kids.iter().map(|k| t(k, n)).collect(), ..m.clone() }
    }
    let want = t(m, touched);
    if got != want {
        return Err(format!("source tree became {got}, expected {want}"));
    }
    Ok(())
}

macro_rules! all {
    ($c:ident, $m:ident, $N:ty, $nm:literal) => {
        all!(@ $c, $m, $N, $nm, "map", (t, f) => t.map(f), map, "map_path", t.map_path(f));
        all!(@ $c, $m, $N, $nm, "map_mut", (t, f) => t.map_mut(f), muts, "map_path_mut", t.map_path_mut(f));
        all!(@ $c, $m, $N, $nm, "map_ref", (t, f) => t.map_ref(f), refs, "map_path_ref", t.map_path_ref(f));
    };
    (@ $c:ident, $m:ident, $N:ty, $nm:literal, $l1:literal, ($t:ident, $f:ident) => $e1:expr, $own:ident, $l2:literal, $e2:expr) => {
        $c.case(&|| format!("{}.{} on {}", $nm, $l1, $m), &mut |st| {
            let mut calls: Vec<Row> = vec![];
            #[allow(unused_mut)]
            let mut $t = <$N>::build($m);
            let $f = |mut v| { calls.push((Obs::id(&v), vec![])); Obs::touch(&mut v); Obs::id(&v) + 100 };
            let r = $e1.model();
            check(r, &calls, $m, false, st)?;
            all!(@src $own, $t, $m)
        });
        $c.case(&|| format!("{}.{} on {}", $nm, $l2, $m), &mut |st| {
            let mut calls: Vec<Row> = vec![];
            #[allow(unused_mut)]
            let mut $t = <$N>::build($m);
            let $f = |p: &[usize], mut v| { calls.push((Obs::id(&v), p.to_vec())); Obs::touch(&mut v); Obs::id(&v) + 100 };
            let r = $e2.model();
            check(r, &calls, $m, true, st)?;
            all!(@src $own, $t, $m)
        });
    };
    (@src map, $t:ident, $m:ident) => { Ok(()) };
    (@src muts, $t:ident, $m:ident) => { source($t.back(), $m, 1) };
    (@src refs, $t:ident, $m:ident) => { source($t.back(), $m, 0) };
}

pub fn run(c: &mut Ctx) {
    let fam = c.pick(300, 300, 0);
    let n = c.pick(11, 13, 5);
    c.bound(format!("every n-ary tree shape with <= {n} nodes, {} x 3 node types x 6 methods", fam_str(fam)));
    for ref m in nary_all(n, fam) {
        if c.mine() {
            all!(c, m, Tree<V>, "Tree");
            all!(c, m, LNode, "LNode");
            all!(c, m, INode, "INode");
        }
    }
    let n = c.pick(10, 12, 5);
    c.bound(format!("every binary tree shape with <= {n} nodes, {} x 2 node types x 6 methods", fam_str(fam)));
    for ref m in binary_all(n, fam) {
        if c.mine() {
            all!(c, m, BinaryTree<V>, "BinaryTree");
            all!(c, m, CBin, "CBin");
        }
    }
    let n = c.pick(5, 6, 2);
    c.bound(format!("map_each and map_path_each on every collection of n-ary or binary trees with <= {n} nodes in total x every container"));
    all_transforms::<MAP>(c, n, MAP);
    let (many, trees) = c.pick((66, 40), (130, 66), (0, 0));
    c.bound(format!("the same on families of larger collections: up to {many} small trees, and 15 families of trees with up to {trees} nodes, alone, in pairs, between small ones and forty of them"));
    family_transforms::<MAP>(c, many, trees, MAP);
}

#[allow(dead_code)]
fn main() {
    main_for("C07", &[], run);
}
