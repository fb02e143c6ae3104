//! Every chain of stages over a collection of trees, consumed through every terminal.
use mc::tree_iterators_rs::prelude::*;
use mc::*;

macro_rules! src {
    (nary, $it:expr) => { NCBox::new($it) };
    (bin, $it:expr) => { BCBox::new($it) };
    (dnary, $it:expr) => { $it };
    (dbin, $it:expr) => { $it };
}
macro_rules! runc {
    (nary) => { run_nary_coll };
    (bin) => { run_binary_coll };
    (dnary) => { direct_nary_coll };
    (dbin) => { direct_binary_coll };
}
macro_rules! cb {
    ($own:ident, $k:ident, $label:expr, $N:ty, [$g:expr], ($v:ident = $prep:expr) => $coll:expr, $c:ident, $f:ident, $chain:ident, $o:ident, $term:ident) => {
        if $g {
            $c.case(&|| format!("{}.{}{} {:?} on {}", $label, cb!(@name $own), chain_str($chain), $term, forest_str($f)), &mut |st| {
                #[allow(unused_mut)]
                let mut $v = $prep;
                cb!(@run $own $k, $coll, $chain, $term, $o, st)?;
                cb!(@src $own, $v, $f, $o)
            });
        }
    };
    (@name owned) => { "into_pipeline()" };
    (@name muts) => { "into_pipeline_mut()" };
    (@name refs) => { "into_pipeline_ref()" };
    (@run owned $k:ident, $coll:expr, $chain:ident, $term:ident, $o:ident, $st:ident) => { runc!($k)(src!($k, $coll.into_pipeline()), $chain, $term, $o, true, $st) };
    (@run muts $k:ident, $coll:expr, $chain:ident, $term:ident, $o:ident, $st:ident) => { runc!($k)(src!($k, $coll.into_pipeline_mut()), $chain, $term, $o, true, $st) };
    (@run refs $k:ident, $coll:expr, $chain:ident, $term:ident, $o:ident, $st:ident) => { runc!($k)(src!($k, $coll.into_pipeline_ref()), $chain, $term, $o, false, $st) };
    (@src owned, $v:ident, $f:ident, $o:ident) => { Ok(()) };
    (@src muts, $v:ident, $f:ident, $o:ident) => {{
        let got: Vec<M> = $v.iter().map(|t| Build::back(t)).collect();
        let want: Vec<M> = $f.iter().map(|t| touched_model(t, $o)).collect();
        if got != want { Err(format!("the collection became {}, expected {}", forest_str(&got), forest_str(&want))) } else { Ok(()) }
    }};
    (@src refs, $v:ident, $f:ident, $o:ident) => {{
        let got: Vec<M> = $v.iter().map(|t| Build::back(t)).collect();
        if got != *$f { Err(format!("the collection became {}", forest_str(&got))) } else { Ok(()) }
    }};
}

macro_rules! direct {
    ($k:ident, $N:ty, $nm:literal, $c:ident, $f:ident, $chain:ident, $o:ident, $term:ident) => {
        if $chain.len() <= 2 {
            cb!{ owned, $k, concat!("(not boxed) Vec<", $nm, ">"), $N, [true], (v = build_vec::<$N>($f)) => v, $c, $f, $chain, $o, $term }
            cb!{ muts, $k, concat!("(not boxed) IterMut<", $nm, ">"), $N, [true], (v = build_vec::<$N>($f)) => v.iter_mut(), $c, $f, $chain, $o, $term }
            cb!{ refs, $k, concat!("(not boxed) Iter<", $nm, ">"), $N, [true], (v = build_vec::<$N>($f)) => v.iter(), $c, $f, $chain, $o, $term }
        }
    };
}
fn nary(c: &mut Ctx, f: &[M], chain: &[St], term: Term, o: &Out) {
    nary_colls!(cb, f, (c, f, chain, o, term));
    direct!(dnary, Tree<V>, "Tree", c, f, chain, o, term);
}
fn binary(c: &mut Ctx, f: &[M], chain: &[St], term: Term, o: &Out) {
    bin_colls!(cb, f, (c, f, chain, o, term));
    direct!(dbin, BinaryTree<V>, "BinaryTree", c, f, chain, o, term);
}
type One = fn(&mut Ctx, &[M], &[St], Term, &Out);

/// every chain of `len` of these stages, through every terminal
fn all(c: &mut Ctx, f: &[M], stages: &[St], len: usize, one: One) {
    chains(stages, len, &mut |ch| {
        let o = model_chain(f, ch, true);
        for term in TERMS {
            one(c, f, ch, term, &o);
        }
    });
}
/// chains whose consumer prunes subtrees itself
fn cuts(c: &mut Ctx, f: &[M], stages: &[St], len: usize, sets: &[u32], one: One) {
    chains(stages, len, &mut |ch| {
        for set in sets {
            let o = model_chain(f, &[ch, &[St::Cut(*set)]].concat(), true);
            one(c, f, ch, Term::Cut(*set), &o);
        }
    });
}
fn size(f: &[M]) -> usize {
    f.iter().map(|m| m.size()).sum()
}
fn small_stages(f: &[M]) -> Vec<St> {
    stages(size(f), f.iter().map(|m| m.height() + 1).max().unwrap_or(1))
}
fn each_forest(c: &mut Ctx, n: usize, g: &mut dyn FnMut(&mut Ctx, &[M], One)) {
    for s in 0..=n {
        for f in &nary_forests(s) {
            if c.mine() {
                g(c, f, nary);
            }
        }
        for f in &binary_forests(s) {
            if c.mine() {
                g(c, f, binary);
            }
        }
    }
}

/// the trees of a pipeline (only n-ary ones can be) handed on as the collection of a second one, or of a traversal
fn handed_on(c: &mut Ctx, f: &[M], n: usize) {
    for len in 0..=n {
        chains(&small_stages(f), len, &mut |a| {
            if a.iter().any(|s| matches!(s, St::Map | St::MapPath)) {
                return;
            }
            let oa = model_chain(f, a, true);
            let g = &oa.forest[..];
            for len in 0..=1 {
                chains(&stages(size(f), g.iter().map(|m| m.height() + 1).max().unwrap_or(1)), len, &mut |b| {
                    let o = &model_chain(g, b, true);
                    for term in TERMS {
                        c.case(&|| format!("Vec<Tree>.into_pipeline(){}.trees().into_pipeline(){} {term:?} on {}", chain_str(a), chain_str(b), forest_str(f)), &mut |st| {
                            let (it, log) = NCBox::new(build_vec::<Tree<V>>(f).into_pipeline()).chain(a);
                            run_nary_coll(NCBox::new(it.trees().into_pipeline()), b, term, o, true, st)?;
                            check_logs(&oa, a, &log)
                        });
                    }
                });
            }
            macro_rules! walk {
                ($($m:ident $order:expr;)*) => { $(
                    c.case(&|| format!("Vec<Tree>.into_pipeline(){}.trees().{}().attach_context() on {}", chain_str(a), stringify!($m), forest_str(f)), &mut |st| {
                        let w = want_forest(g, $order);
                        let (it, log) = NCBox::new(build_vec::<Tree<V>>(f).into_pipeline()).chain(a);
                        let mut it = it.trees().$m().attach_context();
                        let i = walk_ctx!(owned, $order, it, w, st);
                        if i != w.0.len() {
                            return Err(format!("ended after {i} of {} nodes", w.0.len()));
                        }
                        check_logs(&oa, a, &log)
                    });
                )* };
            }
            walk!(bfs_each Order::Bfs; dfs_preorder_each Order::Pre; dfs_postorder_each Order::Post;);
        });
    }
}

pub fn run(c: &mut Ctx) {
    // (maximum nodes in total, chain length)
    let plan: Vec<(usize, usize)> = c.pick(vec![(7, 0), (5, 1), (4, 2), (2, 3)], vec![(8, 0), (7, 1), (4, 2), (3, 3), (2, 4)], vec![(3, 0), (3, 1), (2, 2)]);
    for (n, len) in plan {
        c.bound(format!("every chain of {len} stages (every prune set, every depth limit) x 4 terminals on every collection of n-ary or binary trees with <= {n} nodes in total x every container"));
        each_forest(c, n, &mut |c, f, one| all(c, f, &small_stages(f), len, one));
    }
    let plan: Vec<(usize, usize)> = c.pick(vec![(6, 0), (4, 1), (2, 2)], vec![(7, 0), (5, 1), (3, 2)], vec![(3, 0), (2, 1)]);
    for (n, len) in plan {
        c.bound(format!("every chain of {len} stages followed by prune_current_subtree() at every set of nodes on every collection with <= {n} nodes in total x every container"));
        each_forest(c, n, &mut |c, f, one| {
            let sets: Vec<u32> = (0..1u32 << size(f)).collect();
            cuts(c, f, &small_stages(f), len, &sets, one)
        });
    }
    for (n, len) in c.pick([(5, 1), (3, 2)], [(6, 1), (4, 2)], [(3, 1), (2, 2)]) {
        c.bound(format!("the trees of every chain of up to {len} prune and prune_depth stages on every collection of n-ary trees with <= {n} nodes in total, handed on as a collection to every chain of up to one stage and to every traversal with context"));
        for s in 0..=n {
            for f in &nary_forests(s) {
                if c.mine() {
                    handed_on(c, f, len);
                }
            }
        }
    }
    if c.tier == Tier::Miri {
        return;
    }
    let (many, trees) = c.pick((40, 24), (130, 66), (0, 0));
    c.bound(format!("chains of up to one stage with periodic prune sets and some depth limits on families of larger collections: up to {many} small trees, and 15 families of trees with up to {trees} nodes between small ones"));
    let mut fam = |c: &mut Ctx, f: &[M], one: One| {
        all(c, f, &big_stages(), 0, one);
        all(c, f, &big_stages(), 1, one);
        cuts(c, f, &[], 0, &big_sets(), one);
    };
    for f in &nary_forest_families(many, trees) {
        if c.mine() {
            fam(c, f, nary);
        }
    }
    for f in &binary_forest_families(many, trees) {
        if c.mine() {
            fam(c, f, binary);
        }
    }
    c.bound("15 chains of up to two stages on collections of 66000 small trees".into());
    for (fs, one) in [(nary_forest_giants(), nary as One), (binary_forest_giants(), binary as One)] {
        for f in &fs {
            for ch in &giant_chains() {
                let o = model_chain(f, ch, true);
                for term in TERMS {
                    if c.mine() {
                        one(c, f, ch, term, &o);
                    }
                }
            }
        }
    }
}

#[allow(dead_code)]
fn main() {
    main_for("C14", &[], run);
}
