use mc::tree_iterators_rs::prelude::*;
use mc::*;
#[path = "../each_walks.rs"]
mod each_walks;
use each_walks::*;

macro_rules! cb {
    ($own:ident, $label:expr, $order:expr, $N:ty, ($t:ident) => $it:expr, $c:ident, $m:ident) => {
        $c.case(&|| format!("{}.attach_context() on {}", $label, $m), &mut |st| {
            let w = want($m, $order);
            #[allow(unused_mut)]
            let mut $t = <$N>::build($m);
            let mut it = $it.attach_context();
            let i = walk_ctx!($own, $order, it, w, st);
            if i != w.0.len() {
                return Err(format!("ended after {i} of {} nodes", w.0.len()));
            }
            if it.get().is_some() {
                return Err("get() yields an element after the end".into());
            }
            Ok(())
        });
    };
}

pub fn run(c: &mut Ctx) {
    let fam = c.pick(300, 300, 0);
    let n = c.pick(11, 13, 4);
    c.bound(format!("every n-ary tree shape with <= {n} nodes, {}", fam_str(fam)));
    for ref m in nary_all(n, fam) {
        if c.mine() {
            nary_sources!(cb, (c, m));
        }
    }
    let n = c.pick(10, 12, 4);
    c.bound(format!("every binary tree shape with <= {n} nodes, {}", fam_str(fam)));
    for ref m in binary_all(n, fam) {
        if c.mine() {
            bin_sources!(cb, (c, m));
        }
    }
    let n = c.pick(6, 7, 2);
    c.bound(format!("attach_context on every *_each traversal of every collection of n-ary or binary trees with <= {n} nodes in total x every container"));
    all_traversals::<false, true>(c, n);
    let (many, trees) = c.pick((130, 130), (300, 300), (0, 0));
    c.bound(format!("the same on families of larger collections: up to {many} small trees, and 15 families of trees with up to {trees} nodes, alone, in pairs, between small ones and forty of them"));
    family_traversals::<false, true>(c, many, trees);
}

#[allow(dead_code)]
fn main() {
    main_for("C04", &[], run);
}
