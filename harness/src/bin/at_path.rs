//! at_path: every path over a bounded alphabet addresses exactly the node the model addresses, and
//! the paths reported by attach_context lead back to their nodes.
use mc::tree_iterators_rs::prelude::*;
use mc::*;

fn paths(width: usize, len: usize) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    let mut level = vec![vec![]];
    let alpha: Vec<usize> = (0..width).chain([usize::MAX]).collect();
    for _ in 0..len {
        let mut next = vec![];
        for p in &level {
            for a in &alpha {
                let mut p: Vec<usize> = p.clone();
                p.push(*a);
                next.push(p);
            }
        }
        out.extend(next.iter().cloned());
        level = next;
    }
    out
}
/// the paths of all nodes with one index moved on by a power of two that a narrow counter would lose
fn wraps(infos: Vec<Info>, out: &mut Vec<Vec<usize>>) {
    for i in infos {
        for at in 0..i.path.len() {
            for by in [1 << 8, 1 << 16, 1 << 32, 1 << 63] {
                let mut p = i.path.clone();
                p[at] += by;
                out.push(p);
            }
        }
    }
}
fn width(m: &M) -> usize {
    m.kids.len().max(m.kids.iter().map(width).max().unwrap_or(0))
}
fn check(got: Option<M>, m: &M, p: &[usize], st: &mut Stats) -> Result<(), String> {
    st.step();
    let want = m.at(p).map(|m| M { slot: 0, ..m.clone() });
    st.see(got.as_ref().map(|g| g.id as u64).unwrap_or(99));
    if got != want {
        let s = |m: Option<M>| m.map(|m| m.to_string()).unwrap_or("None".into());
        return Err(format!("yielded {}, expected {}", s(got), s(want)));
    }
    Ok(())
}
macro_rules! all {
    ($c:ident, $m:ident, $N:ty, $nm:literal, $ps:ident) => {
        for p in &$ps {
            $c.case(&|| format!("{}.at_path({p:?}) on {}", $nm, $m), &mut |st| check(<$N>::build($m).at_path(p).map(|n| n.back()), $m, p, st));
            $c.case(&|| format!("{}.at_path_mut({p:?}) on {}", $nm, $m), &mut |st| {
                let mut t = <$N>::build($m);
                let mut want = $m.clone();
                let mut hit = None;
                check(t.at_path_mut(p).map(|n| { let b = n.back(); n.value.touch(); hit = Some(b.id); b }), $m, p, st)?;
                if let Some(h) = hit { want.find_mut(h).unwrap().touched = 1; }
                if t.back() != want { Err(format!("the tree became {}, expected {want}", t.back())) } else { Ok(()) }
            });
            $c.case(&|| format!("{}.at_path_ref({p:?}) on {}", $nm, $m), &mut |st| check(<$N>::build($m).at_path_ref(p).map(|n| n.back()), $m, p, st));
        }
        $c.case(&|| format!("{}: context paths lead back via at_path on {}", $nm, $m), &mut |st| {
            let mut t = <$N>::build($m);
            let mut got: Vec<Row> = vec![];
            {
                let mut it = t.dfs_preorder_iter().attach_context();
                while let Some(x) = it.next() { got.push((x.ancestors().last().unwrap().id(), x.path().to_vec())); }
            }
            let mut it = <$N>::build($m).bfs().attach_context();
            while let Some(x) = it.next() { got.push((x.ancestors().last().unwrap().id(), x.path().to_vec())); }
            for (id, p) in got {
                st.step();
                let a = t.at_path_ref(&p).map(|n| n.nid());
                let b = t.at_path_mut(&p).map(|n| n.nid());
                let c = <$N>::build($m).at_path(&p).map(|n| n.nid());
                if [a, b, c] != [Some(id); 3] {
                    return Err(format!("path {p:?} of node {id} leads to {a:?}, {b:?}, {c:?}"));
                }
            }
            Ok(())
        });
    };
}
/// the paths of all nodes of a tree too large for all paths, and their near misses
fn near(m: &M) -> Vec<(Vec<usize>, Option<u32>)> {
    let mut out = vec![];
    let infos = m.infos();
    let giant = infos.len() > 10_000;
    for i in infos {
        if giant && !i.path.first().is_some_and(|p| special(*p) || special(*p + 1)) {
            continue;
        }
        let mut ps: Vec<Vec<usize>> = vec![];
        let next = i.kids.last().map_or(0, |k| k.0 + 1);
        for a in [0, 1, 2, next, next + 1, usize::MAX] {
            ps.push([&i.path[..], &[a]].concat());
        }
        ps.push([&i.path[..], &[0, 0]].concat());
        if let Some((l, p)) = i.path.split_last() {
            ps.push([p, &[l.wrapping_sub(1)]].concat());
        }
        for p in ps {
            let w = m.at(&p).map(|n| n.id);
            out.push((p, w));
        }
        out.push((i.path, Some(i.id)));
    }
    out
}
macro_rules! large {
    ($c:ident, $m:ident, $N:ty, $nm:literal, $ps:ident, $owned:expr) => {
        large!(@ $c, $m, $N, $nm, $ps, "at_path_ref", t, p, t.at_path_ref(p).map(|n| n.nid()));
        large!(@ $c, $m, $N, $nm, $ps, "at_path_mut", t, p, t.at_path_mut(p).map(|n| n.nid()));
        if $owned {
            large!(@ $c, $m, $N, $nm, $ps, "at_path", t, p, { let _ = &mut t; <$N>::build($m).at_path(p).map(|n| n.nid()) });
        }
    };
    (@ $c:ident, $m:ident, $N:ty, $nm:literal, $ps:ident, $meth:literal, $t:ident, $p:ident, $e:expr) => {
        $c.case(&|| format!("{}.{} of all nodes and their near misses on {}", $nm, $meth, $m), &mut |st| {
            #[allow(unused_mut)]
            let mut $t = <$N>::build($m);
            for (p, want) in &$ps {
                let $p = &p[..];
                let got = $e;
                st.step();
                st.see(got.unwrap_or(999) as u64);
                if got != *want {
                    return Err(format!("{}({p:?}) yielded {got:?}, expected {want:?}", $meth));
                }
            }
            Ok(())
        });
    };
}
/// the node of a forest addressed by a path whose first index is the tree
fn at_forest(f: &[M], p: &[usize]) -> Option<M> {
    let (i, rest) = p.split_first()?;
    f.get(*i)?.at(rest).cloned()
}
fn check_f(got: Option<M>, f: &[M], p: &[usize], st: &mut Stats) -> Result<(), String> {
    st.step();
    let want = at_forest(f, p).map(|m| M { slot: 0, ..m });
    st.see(got.as_ref().map(|g| g.id as u64).unwrap_or(99));
    if got != want {
        let s = |m: Option<M>| m.map(|m| m.to_string()).unwrap_or("None".into());
        return Err(format!("yielded {}, expected {}", s(got), s(want)));
    }
    Ok(())
}
macro_rules! cb {
    ($own:ident, $k:ident, $label:expr, $N:ty, [$g:expr], ($v:ident = $prep:expr) => $coll:expr, $c:ident, $f:ident, $ps:ident) => {
        if $g {
            for p in $ps {
                $c.case(&|| format!("{}.{}({p:?}) on {}", $label, cb!(@name $own), forest_str($f)), &mut |st| {
                    #[allow(unused_mut)]
                    let mut $v = $prep;
                    let got = cb!(@call $own, $coll, p).map(|n| n.back());
                    check_f(got, $f, p, st)
                });
            }
        }
    };
    (@name owned) => { "at_path" };
    (@name muts) => { "at_path_mut" };
    (@name refs) => { "at_path_ref" };
    (@call owned, $coll:expr, $p:ident) => { $coll.at_path($p) };
    (@call muts, $coll:expr, $p:ident) => { $coll.at_path_mut($p) };
    (@call refs, $coll:expr, $p:ident) => { $coll.at_path_ref($p) };
}
fn nary_c(c: &mut Ctx, f: &[M], ps: &[Vec<usize>]) {
    nary_colls!(cb, f, (c, f, ps));
}
fn binary_c(c: &mut Ctx, f: &[M], ps: &[Vec<usize>]) {
    bin_colls!(cb, f, (c, f, ps));
}

pub fn run(c: &mut Ctx) {
    let n = c.pick(7, 8, 4);
    c.bound(format!("every n-ary tree shape with <= {n} nodes x every path of length <= height+1 over indices 0..=max_children and usize::MAX, and of every node path with one index larger by 2^8, 2^16, 2^32 or 2^63, x 3 node types x 3 methods"));
    for s in 1..=n {
        for m in &nary_shapes(s) {
            if c.mine() {
                let mut ps = paths(width(m) + 1, m.height() + 1);
                wraps(m.infos(), &mut ps);
                all!(c, m, Tree<V>, "Tree", ps);
                all!(c, m, LNode, "LNode", ps);
                all!(c, m, INode, "INode", ps);
            }
        }
    }
    let n = c.pick(7, 8, 3);
    c.bound(format!("every binary tree shape with <= {n} nodes x every path of length <= height+1 over indices 0..=2 and usize::MAX, and of every node path with one index larger by 2^8, 2^16, 2^32 or 2^63, x 2 node types x 3 methods"));
    for s in 1..=n {
        for m in &binary_shapes(s) {
            if c.mine() {
                let mut ps = paths(3, m.height() + 1);
                wraps(m.infos(), &mut ps);
                all!(c, m, BinaryTree<V>, "BinaryTree", ps);
                all!(c, m, CBin, "CBin", ps);
            }
        }
    }
    let (n, fam) = c.pick((10, 66), (11, 300), (0, 0));
    c.bound(format!("the paths of all nodes and their near misses (one index further, one back, one or two too long) on every shape with <= {n} nodes, {}", fam_str(fam)));
    for ref m in nary_all(n, fam).chain(nary_giants()) {
        if n > 0 && c.mine() {
            let ps = near(m);
            let small = m.size() <= 66;
            large!(c, m, Tree<V>, "Tree", ps, small);
            large!(c, m, LNode, "LNode", ps, small);
            if m.size() <= 300 {
                large!(c, m, INode, "INode", ps, small);
            }
        }
    }
    for ref m in binary_all(n, fam) {
        if n > 0 && c.mine() {
            let ps = near(m);
            let small = m.size() <= 66;
            large!(c, m, BinaryTree<V>, "BinaryTree", ps, small);
            large!(c, m, CBin, "CBin", ps, small);
        }
    }
    let n = c.pick(5, 6, 3);
    c.bound(format!("every collection with <= {n} nodes in total x every path of length <= height+2 over indices 0..=max(children, trees) and usize::MAX, and of every node path with one index larger by 2^8, 2^16, 2^32 or 2^63, x every container"));
    for s in 0..=n {
        for f in &nary_forests(s) {
            if c.mine() {
                let w = f.iter().map(width).max().unwrap_or(0).max(f.len()) + 1;
                let mut ps = paths(w.min(5), f.iter().map(|m| m.height()).max().unwrap_or(0) + 2);
                wraps(forest_infos(f), &mut ps);
                nary_c(c, f, &ps);
            }
        }
        for f in &binary_forests(s) {
            if c.mine() {
                let mut ps = paths(3.max(f.len() + 1).min(5), f.iter().map(|m| m.height()).max().unwrap_or(0) + 2);
                wraps(forest_infos(f), &mut ps);
                binary_c(c, f, &ps);
            }
        }
    }
    let (many, trees) = c.pick((66, 40), (300, 130), (0, 0));
    c.bound(format!("nodes at every position of families of larger collections, and the next ones beside and below: up to {many} small trees, and 15 families of trees with up to {trees} nodes, alone, in pairs, between small ones and forty of them"));
    for f in &nary_forest_families(many, trees) {
        if c.mine() {
            nary_c(c, f, &some_paths(f));
        }
    }
    for f in &binary_forest_families(many, trees) {
        if c.mine() {
            binary_c(c, f, &some_paths(f));
        }
    }
}
/// the paths of some nodes of a large forest, one index further, and one level further down
fn some_paths(f: &[M]) -> Vec<Vec<usize>> {
    let infos = forest_infos(f);
    let mut out = vec![vec![], vec![f.len()], vec![usize::MAX, 0]];
    for i in cuts(infos.len()) {
        if let Some(i) = infos.get(i) {
            let mut next = i.path.clone();
            *next.last_mut().unwrap() += 1;
            out.extend([i.path.clone(), next, [&i.path[..], &[0]].concat(), [&i.path[..], &[1]].concat()]);
        }
    }
    out
}
#[allow(dead_code)]
fn main() {
    main_for("C06", &[], run);
}
