//! `*_each` traversals over collections of trees, plain and with attach_context.
use mc::*;
#[path = "../each_walks.rs"]
mod each_walks;
use each_walks::*;

pub fn run(c: &mut Ctx) {
    let (many, trees) = c.pick((300, 130), (300, 300), (0, 0));
    c.bound(format!("families of larger collections: up to {many} small trees, and 15 families of trees with up to {trees} nodes between small ones"));
    let n = c.pick(9, 11, 4);
    c.bound(format!("every collection of n-ary trees with <= {n} nodes in total x every container x every traversal, plain and with context"));
    for ref f in nary_forests_all(n, many, trees) {
        if c.mine() {
            nary_traversals::<true, true>(c, f);
        }
    }
    let n = c.pick(8, 10, 3);
    c.bound(format!("every collection of binary trees with <= {n} nodes in total x every container x every traversal, plain and with context"));
    for ref f in binary_forests_all(n, many, trees) {
        if c.mine() {
            binary_traversals::<true, true>(c, f);
        }
    }
}

#[allow(dead_code)]
fn main() {
    main_for("C12", &[], run);
}
