//! Every chain of pipeline stages up to a length, on every small tree, against the model.
use mc::tree_iterators_rs::prelude::*;
use mc::*;

/// one chain on one tree through one terminal, for every way of owning the tree
macro_rules! one {
    ($c:ident, $m:ident, $chain:ident, $term:ident, $o:ident, $N:ty, $nm:literal, $how:literal, ($t:ident) => $src:expr, $run:ident) => {
        $c.case(&|| format!("{}.into_pipeline(){} {:?}{} on {}", $nm, chain_str($chain), $term, $how, $m), &mut |st| {
            let $t = <$N>::build($m).into_pipeline();
            $run($src, $chain, $term, $o, true, st)
        });
        $c.case(&|| format!("{}.into_pipeline_mut(){} {:?}{} on {}", $nm, chain_str($chain), $term, $how, $m), &mut |st| {
            let mut t = <$N>::build($m);
            {
                let $t = t.into_pipeline_mut();
                $run($src, $chain, $term, $o, true, st)?;
            }
            let (got, want) = (t.back(), touched_model($m, $o));
            if got != want {
                return Err(format!("source tree became {got}, expected {want}"));
            }
            Ok(())
        });
        $c.case(&|| format!("{}.into_pipeline_ref(){} {:?}{} on {}", $nm, chain_str($chain), $term, $how, $m), &mut |st| {
            let t = <$N>::build($m);
            {
                let $t = t.into_pipeline_ref();
                $run($src, $chain, $term, $o, false, st)?;
            }
            let got = t.back();
            if got != *$m {
                return Err(format!("source tree became {got}"));
            }
            Ok(())
        });
    };
}
fn nary(c: &mut Ctx, m: &M, chain: &[St], term: Term, o: &Out) {
    one!(c, m, chain, term, o, Tree<V>, "Tree", "", (t) => NBox::new(t), run_nary);
    one!(c, m, chain, term, o, LNode, "LNode", "", (t) => NBox::new(t), run_nary);
    one!(c, m, chain, term, o, INode, "INode", "", (t) => NBox::new(t), run_nary);
    if chain.len() <= 2 {
        one!(c, m, chain, term, o, Tree<V>, "Tree", " (not boxed)", (t) => t, direct_nary);
    }
}
fn binary(c: &mut Ctx, m: &M, chain: &[St], term: Term, o: &Out) {
    one!(c, m, chain, term, o, BinaryTree<V>, "BinaryTree", "", (t) => BBox::new(t), run_binary);
    one!(c, m, chain, term, o, CBin, "CBin", "", (t) => BBox::new(t), run_binary);
    if chain.len() <= 2 {
        one!(c, m, chain, term, o, BinaryTree<V>, "BinaryTree", " (not boxed)", (t) => t, direct_binary);
    }
}
type One = fn(&mut Ctx, &M, &[St], Term, &Out);

/// every chain of `len` of these stages, through every terminal
fn all(c: &mut Ctx, m: &M, stages: &[St], len: usize, one: One) {
    chains(stages, len, &mut |ch| {
        let o = model_chain(std::slice::from_ref(m), ch, false);
        for term in TERMS {
            one(c, m, ch, term, &o);
        }
    });
}
/// chains whose consumer prunes subtrees itself
fn cuts(c: &mut Ctx, m: &M, stages: &[St], len: usize, sets: &[u32], one: One) {
    chains(stages, len, &mut |ch| {
        for set in sets {
            let o = model_chain(std::slice::from_ref(m), &[ch, &[St::Cut(*set)]].concat(), false);
            one(c, m, ch, Term::Cut(*set), &o);
        }
    });
}
fn each_shape(c: &mut Ctx, n: usize, f: &mut dyn FnMut(&mut Ctx, &M, One)) {
    for s in 1..=n {
        for m in &nary_shapes(s) {
            if c.mine() {
                f(c, m, nary);
            }
        }
        for m in &binary_shapes(s) {
            if c.mine() {
                f(c, m, binary);
            }
        }
    }
}
fn each_family(c: &mut Ctx, sizes: &[usize], f: &mut dyn FnMut(&mut Ctx, &M, One)) {
    for m in &nary_families_of(sizes) {
        if c.mine() {
            f(c, m, nary);
        }
    }
    for m in &binary_families_of(sizes) {
        if c.mine() {
            f(c, m, binary);
        }
    }
}

pub fn run(c: &mut Ctx) {
    // (maximum nodes, chain length)
    let plan: Vec<(usize, usize)> = c.pick(vec![(8, 0), (6, 1), (4, 2), (3, 3)], vec![(10, 0), (8, 1), (5, 2), (4, 3), (3, 4)], vec![(4, 0), (3, 1), (2, 2)]);
    for (n, len) in plan {
        c.bound(format!("every chain of {len} stages (every prune set, every depth limit) x 4 terminals on every n-ary and binary shape with <= {n} nodes"));
        each_shape(c, n, &mut |c, m, one| all(c, m, &stages(m.size(), m.height() + 1), len, one));
    }
    let plan: Vec<(usize, usize)> = c.pick(vec![(7, 0), (4, 1), (3, 2)], vec![(9, 0), (6, 1), (4, 2)], vec![(3, 0), (2, 1)]);
    for (n, len) in plan {
        c.bound(format!("every chain of {len} stages followed by prune_current_subtree() at every set of nodes on every n-ary and binary shape with <= {n} nodes"));
        each_shape(c, n, &mut |c, m, one| {
            let sets: Vec<u32> = (0..1u32 << m.size()).collect();
            cuts(c, m, &stages(m.size(), m.height() + 1), len, &sets, one)
        });
    }
    if c.tier == Tier::Miri {
        return;
    }
    let (one_sizes, two_sizes) = c.pick((family_sizes(40), vec![17, 33]), (family_sizes(130), vec![12, 17, 24, 33, 40]), (vec![], vec![]));
    c.bound(format!("chains of one stage with periodic prune sets and some depth limits on 15 families of larger trees of the sizes {one_sizes:?}, chains of two stages on sizes {two_sizes:?}"));
    each_family(c, &one_sizes, &mut |c, m, one| {
        all(c, m, &big_stages(), 0, one);
        all(c, m, &big_stages(), 1, one);
        cuts(c, m, &[], 0, &big_sets(), one);
    });
    c.bound("15 chains of up to two stages on a tree with 66000 siblings".into());
    for m in &nary_giants() {
        for ch in &giant_chains() {
            let o = model_chain(std::slice::from_ref(m), ch, false);
            for term in TERMS {
                if c.mine() {
                    nary(c, m, ch, term, &o);
                }
            }
        }
    }
    each_family(c, &two_sizes, &mut |c, m, one| all(c, m, &big_stages(), 2, one));
}

#[allow(dead_code)]
fn main() {
    main_for("C11", &[], run);
}
