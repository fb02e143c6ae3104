//! prune_depth: exactly the nodes at depth <= limit remain, for every limit.
use mc::tree_iterators_rs::prelude::*;
use mc::*;
#[path = "../each_ops.rs"]
mod each_ops;
use each_ops::*;

fn cut(m: &M, d: usize) -> M {
    M { kids: if d == 0 { vec![] } else { m.kids.iter().map(|k| cut(k, d - 1)).collect() }, ..m.clone() }
}
fn check(got: M, m: &M, d: usize, st: &mut Stats) -> Result<(), String> {
    let want = cut(m, d);
    st.steps(want.size());
    st.sees(got.order(Order::Pre));
    st.sees(got.order(Order::Post));
    if got != want {
        return Err(format!("result {got}, expected {want}"));
    }
    Ok(())
}
macro_rules! all {
    ($c:ident, $m:ident, $N:ty, $nm:literal) => {
        for d in (0..=$m.height() + 2).chain([1 << 8, 1 << 16, 1 << 32, usize::MAX - 1, usize::MAX]) {
            $c.case(&|| format!("{}.prune_depth({d}) on {}", $nm, $m), &mut |st| check(<$N>::build($m).prune_depth(d).model(), $m, d, st));
            $c.case(&|| format!("{}.prune_depth_mut({d}) on {}", $nm, $m), &mut |st| {
                let mut t = <$N>::build($m);
                check(t.prune_depth_mut(d).model(), $m, d, st)?;
                if t.back() != *$m { Err(format!("source tree became {}", t.back())) } else { Ok(()) }
            });
            $c.case(&|| format!("{}.prune_depth_ref({d}) on {}", $nm, $m), &mut |st| {
                let t = <$N>::build($m);
                check(t.prune_depth_ref(d).model(), $m, d, st)?;
                if t.back() != *$m { Err(format!("source tree became {}", t.back())) } else { Ok(()) }
            });
        }
    };
}
pub fn run(c: &mut Ctx) {
    let fam = c.pick(66, 66, 0);
    let n = c.pick(10, 12, 5);
    c.bound(format!("every n-ary tree shape with <= {n} nodes, {} x every depth limit up to height+2, and 2^8, 2^16, 2^32, 2^64-2, 2^64-1, x 3 node types x 3 methods", fam_str(fam)));
    for ref m in nary_all(n, fam) {
        if c.mine() {
            all!(c, m, Tree<V>, "Tree");
            all!(c, m, LNode, "LNode");
            all!(c, m, INode, "INode");
        }
    }
    let n = c.pick(9, 11, 5);
    c.bound(format!("every binary tree shape with <= {n} nodes, {} x every depth limit up to height+2, and 2^8, 2^16, 2^32, 2^64-2, 2^64-1, x 2 node types x 3 methods", fam_str(fam)));
    for ref m in binary_all(n, fam) {
        if c.mine() {
            all!(c, m, BinaryTree<V>, "BinaryTree");
            all!(c, m, CBin, "CBin");
        }
    }
    let n = c.pick(5, 6, 2);
    c.bound(format!("prune_depth_each, every limit on every collection of n-ary or binary trees with <= {n} nodes in total x every container"));
    all_transforms::<DEPTH>(c, n, DEPTH);
    let (many, trees) = c.pick((66, 40), (130, 66), (0, 0));
    c.bound(format!("the same on families of larger collections: up to {many} small trees, and 15 families of trees with up to {trees} nodes, alone, in pairs, between small ones and forty of them"));
    family_transforms::<DEPTH>(c, many, trees, DEPTH);
}

#[allow(dead_code)]
fn main() {
    main_for("C10", &[], run);
}
