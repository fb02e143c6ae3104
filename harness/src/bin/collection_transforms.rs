//! map/fold/prune `*_each` methods of collections: results, closure calls and paths, consuming any
//! number of results.
use mc::*;
#[path = "../each_ops.rs"]
mod each_ops;
use each_ops::*;

const ALL: u8 = MAP | FOLD | PRUNE | DEPTH;

pub fn run(c: &mut Ctx) {
    let n = c.pick(6, 8, 2);
    c.bound(format!("every collection of n-ary or binary trees with <= {n} nodes in total x every container x map/map_path/fold/fold_path/prune/prune_path/prune_depth _each (every prune set, every depth limit), consuming 0.. all results"));
    all_transforms::<ALL>(c, n, ALL);
    let (many, trees) = c.pick((33, 16), (130, 66), (0, 0));
    c.bound(format!("the same with periodic prune sets and some numbers of results on families of larger collections: up to {many} small trees, and 15 families of trees with up to {trees} nodes between small ones"));
    family_transforms::<ALL>(c, many, trees, ALL);
    if c.tier == Tier::Miri {
        return;
    }
    c.bound("collections of 66000 small trees".into());
    let size = |f: &[M]| f.iter().map(|m| m.size()).sum();
    for f in &nary_forest_giants() {
        for w in [MAP, FOLD, PRUNE, DEPTH] {
            if c.mine() {
                nary_transforms::<ALL>(c, f, size(f), w);
            }
        }
    }
    for f in &binary_forest_giants() {
        for w in [MAP, FOLD, PRUNE, DEPTH] {
            if c.mine() {
                binary_transforms::<ALL>(c, f, size(f), w);
            }
        }
    }
}

#[allow(dead_code)]
fn main() {
    main_for("C13", &[], run);
}
